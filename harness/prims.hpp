// The text scanning primitives, each applied at every position of a text.
//   prim HEX END     all cursor operations on the first END bytes (the text goes on after)
//   offs HEX END START C   positions of character C
// With VERIF_EXACT the memory ends where the text does.
struct PrimText {
    const char* b;
    size_t n;
    std::unique_ptr<char[]> own;
    PrimText(const std::string& t, size_t end) : b(t.data()), n(t.size()) {
#ifdef VERIF_EXACT
        n = end;
        own.reset(new char[end]);
        for (size_t i = 0; i < end; ++i) own[i] = t[i];
        b = own.get();
#else
        (void)end;
#endif
    }
    pigo::FileReader make(size_t pos, size_t end) const {
        pigo::FileReader r {b+pos, b+n};
        if (end < n) {
            pigo::FileReader e {b+end, b+n};
            r.smaller_end(e);
        }
        return r;
    }
};

template <class F>
static void prim_move(Out& o, const char* name, const PrimText& t, size_t end, F f) {
    o.raw(",\""); o.raw(name); o.raw("\":[");
    for (size_t p = 0; p <= end; ++p) {
        if (p) o.raw(",");
        pigo::FileReader r = t.make(p, end);
        f(r);
        o.integer(r.d - t.b);
    }
    o.raw("]");
}
template <class F>
static void prim_val(Out& o, const char* name, const PrimText& t, size_t end, F f) {
    o.raw(",\""); o.raw(name); o.raw("\":[");
    for (size_t p = 0; p <= end; ++p) {
        if (p) o.raw(",");
        pigo::FileReader r = t.make(p, end);
        auto v = f(r);
        o.raw("[");
        log_num(o, v);
        o.raw(","); o.integer(r.d - t.b);
        o.raw("]");
    }
    o.raw("]");
}

template <class FH> static void prim_op(const Args& a, Out& o, FH flush_head) {
    std::string t = unhex(a[1]);
    if (a[1] == "-") t = "";
    size_t end = std::stoul(a[2]);
    o.raw(",\"t\":"); o.bytes(t.data(), t.size());
    o.raw(",\"end\":"); o.integer((long long)end);
    if (a[0] == "offs") {
        size_t start = std::stoul(a[3]);
        char c = (char)std::stoi(a[4]);
        int how = a.size() > 5 ? std::stoi(a[5]) : 0;
        o.raw(",\"at\":"); o.integer((long long)start);
        o.raw(",\"c\":"); o.integer((unsigned char)c);
        flush_head();
        guarded(o, [&]() {
            Out r;
            PrimText x {t, end};
            pigo::FileReader rd = x.make(start, end);
            r.raw("\"val\":[");
            auto dump = [&](size_t m, std::function<long long(size_t)> g) {
                for (size_t i = 0; i < m; ++i) { if (i) r.raw(","); r.integer(g(i)); }
            };
            if (how == 0) {
                typedef pigo::Tensor<size_t, size_t, std::vector<size_t>, float, float*, false> R;
                R y = rd.find_offsets<R>(c);
                dump(y.m(), [&](size_t i) { return (long long)y.c()[i]; });
            } else if (how == 1) {
                typedef pigo::Tensor<uint32_t, uint32_t, uint32_t*, float, float*, false> R;
                R y = rd.find_offsets<R>(c);
                dump(y.m(), [&](size_t i) { return (long long)y.c()[i]; });
                y.free();
            } else {
                typedef pigo::Tensor<int64_t, int64_t, std::shared_ptr<int64_t>, float, float*, false> R;
                R y = rd.find_offsets<R>(c);
                dump((size_t)y.m(), [&](size_t i) { return (long long)y.c().get()[i]; });
            }
            r.raw("]");
            return r.s;
        });
        return;
    }
    flush_head();
    guarded(o, [&]() {
    Out w;
    PrimText x {t, end};
    typedef pigo::FileReader R;
    prim_move(w, "skipc", x, end, [](R& r) { r.skip_comments(); });
    prim_move(w, "nonint", x, end, [](R& r) { r.move_to_non_int(); });
    prim_move(w, "nonfp", x, end, [](R& r) { r.move_to_non_fp(); });
    prim_move(w, "fp", x, end, [](R& r) { r.move_to_fp(); });
    prim_move(w, "first", x, end, [](R& r) { r.move_to_first_int(); });
    prim_move(w, "next", x, end, [](R& r) { r.move_to_next_int(); });
    prim_move(w, "nexts", x, end, [](R& r) { r.move_to_next_signed_int(); });
    prim_move(w, "nextnl", x, end, [](R& r) { r.move_to_next_int_or_nl(); });
    prim_move(w, "eol", x, end, [](R& r) { r.move_to_eol(); });
    prim_move(w, "tonl", x, end, [](R& r) { r.move_to('\n'); });
    prim_move(w, "to1", x, end, [](R& r) { r.move_to('1'); });
    prim_move(w, "add2", x, end, [](R& r) { r += 2; });
    prim_move(w, "plus1", x, end, [](R& r) { r = r + 1; });
    prim_val(w, "int", x, end, [](R& r) { return r.read_int<uint32_t>(); });
    prim_val(w, "rfp", x, end, [](R& r) { return r.read_fp<double>(); });
    prim_val(w, "sign", x, end, [](R& r) { return r.read_sign<int>(); });
    prim_val(w, "ateol", x, end, [](R& r) { return (int)r.at_end_of_line(); });
    prim_val(w, "nleol", x, end, [](R& r) { return (int)r.at_nl_or_eol(); });
    prim_val(w, "zero", x, end, [](R& r) { return (int)r.at_zero(); });
    prim_val(w, "good", x, end, [](R& r) { return (int)r.good(); });
    prim_val(w, "size", x, end, [](R& r) { return (int)r.size(); });
    prim_val(w, "peek", x, end, [](R& r) { return (int)(unsigned char)r.peek(); });
    prim_val(w, "spaces", x, end, [](R& r) { return (int)r.count_spaces_to_eol(); });
    prim_val(w, "str", x, end, [](R& r) { return (int)r.at_str("1 "); });
    prim_val(w, "str0", x, end, [](R& r) { return (int)r.at_str(""); });
    return w.s.substr(1);
    });
}

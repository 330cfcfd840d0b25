// The type configurations of the driver.
#ifndef VERIF_CONFIGS_HPP
#define VERIF_CONFIGS_HPP
#include <cstdint>
#include <memory>
#include <vector>
namespace drv {
template <char K, class T> struct Sto;
template <class T> struct Sto<'p', T> { typedef T* type; };
template <class T> struct Sto<'v', T> { typedef std::vector<T> type; };
template <class T> struct Sto<'s', T> { typedef std::shared_ptr<T> type; };

template <class L_, class O_, char K, bool WGT, class W_> struct Types {
    typedef L_ L; typedef O_ O; typedef W_ W;
    static constexpr bool wgt = WGT;
    static constexpr char k = K;
    typedef typename Sto<K, L>::type SL;
    typedef typename Sto<K, O>::type SO;
    typedef typename Sto<K, W>::type SW;
};
template <int ID> struct ById;
#define C(ID, L, O, K, WGT, W) template <> struct ById<ID> { typedef Types<L, O, K, WGT, W> type; };
C(0, uint32_t, uint32_t, 'p', false, float)
C(1, uint32_t, uint32_t, 'p', true, float)
C(2, uint32_t, uint64_t, 'v', false, float)
C(3, uint32_t, uint64_t, 'v', true, int32_t)
C(4, uint64_t, uint32_t, 's', false, float)
C(5, uint64_t, uint64_t, 's', true, double)
C(6, int32_t, int64_t, 'p', true, uint32_t)
C(7, int64_t, int64_t, 'v', true, int64_t)
C(8, uint8_t, uint16_t, 'v', true, uint8_t)
C(9, uint16_t, uint32_t, 's', true, int16_t)
C(10, int8_t, uint32_t, 'p', true, int8_t)
C(11, int16_t, int32_t, 'v', true, uint16_t)
C(12, uint64_t, uint64_t, 'p', true, uint64_t)
C(13, uint32_t, uint32_t, 'v', true, double)
C(14, uint32_t, uint32_t, 's', true, float)
C(15, uint32_t, uint32_t, 'v', false, float)
C(16, uint32_t, uint32_t, 's', false, float)
C(17, uint32_t, uint32_t, 'v', true, float)
C(18, uint64_t, uint64_t, 'p', true, float)
C(19, uint64_t, uint64_t, 'v', false, float)
C(20, uint32_t, uint8_t, 'p', true, uint16_t)
C(21, uint8_t, uint16_t, 'p', false, float)
C(22, int16_t, uint8_t, 's', false, float)
C(23, uint64_t, uint16_t, 'v', true, int8_t)
#undef C
}
#endif

// Failing resources: the Nth allocation, or the Nth system call that obtains or sizes a
// file, of an operation fails.
#ifndef VERIF_FAULTS_HPP
#define VERIF_FAULTS_HPP
namespace faults {
// kind: 'A' allocations, 'S' system calls; the nth of them fails, and so do the next
// ones, count in all (0: all of them)
void plan(char kind, long nth, long count);
void arm();
// how many failed since arm()
long disarm();
// blocks held by the program
long held();
}
#endif

// Controlled execution of OpenMP code: see sched.cpp
#pragma once
#include <cstddef>
// Library code is running (true) or the driver is (false)
void sched_enable(bool on);
// A scenario starts
void sched_scenario(long index);
// A scenario ends: writes what was recorded, one line "#M {...}" per operation
void sched_end(int fd);
// sched KIND SEED PARAMETER CHUNK GRANT RECORD [choices]
void sched_set(int argc, const char* const* argv);

// A small randomised scheduler for demonstrations. The library is compiled with -fsanitize=thread, but instead of the
// ThreadSanitizer runtime the callbacks of demosched.c are linked: every memory access of the library is a point where
// the running thread may be replaced by another one. Only one thread runs at any time; all choices come from a seed.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
// Runs body(0) ... body(n-1) concurrently under the schedule given by seed. Returns 0 if all of them finished and 1 if
// they did not within max_steps accesses (in that case the process can only report and exit).
int demo_run(int n, void (*body)(int), uint64_t seed, long max_steps);
// Orders for history recording: a global counter that increases with every call.
// A scheduling point of the demonstration itself (demo.c is not instrumented).
void demo_point(void);
long demo_now(void);
// Seconds since the start of the program.
double demo_time(void);
// When set, thread demo_stall_tid is never scheduled again once it has executed demo_stall_at accesses.
extern int demo_stall_tid; extern long demo_stall_at;
#define DEMO_FAIL(...) do { printf("DEMO FAILED: " __VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } while (0)

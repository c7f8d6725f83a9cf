/* Command-line parsing keeps its state in process globals; simulated processes share one address space, so each
 * simulated process gets its own.  Included before the first line of every program of the code under test. */
#pragma once
#include <getopt.h>
#include <unistd.h>
struct sim_getopt_state { char* arg; int ind, opt, err, pos; };
extern "C" {
struct sim_getopt_state* sim_getopt_st(void);
int sim_getopt(int argc, char* const* argv, const char* opts);
int sim_getopt_long(int argc, char* const* argv, const char* opts, const struct option* lo, int* idx);
}
#define optarg (sim_getopt_st()->arg)
#define optind (sim_getopt_st()->ind)
#define optopt (sim_getopt_st()->opt)
#define opterr (sim_getopt_st()->err)
#define getopt sim_getopt
#define getopt_long sim_getopt_long

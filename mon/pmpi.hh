// Monitor of the MPI boundary: every MPI call of the code under test passes
// through here (PMPI interposition).  It records events, checks call matching
// across processes, request/handle lifetime, and injects delays and failures.
#pragma once
#include <mpi.h>

#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace pm {

// one per process, mmap()ed; read by the supervisor (tools/run.py)
struct Status {
    volatile uint64_t magic;
    volatile uint64_t events;    // MPI calls completed or entered
    volatile uint64_t in_mpi;    // 1 while inside an MPI call
    volatile uint64_t cases;     // cases begun
    volatile uint64_t case_no;
    volatile uint64_t np;
    volatile uint64_t phase;     // 0 starting 1 running 2 done
    volatile uint64_t harness;   // 1 while in harness code between cases
    char call[64];
    char scen[64];
    char prop[16];
};
Status* status();
void attach(const std::string& path);

// --- per-case life cycle (collective over MPI_COMM_WORLD) ---
void case_begin();
// returns the problems found (on world rank 0; empty elsewhere)
struct Problem {
    std::string kind;  // seq | unmatched | request | handle | buffer | misuse
    std::string what;
};
std::vector<Problem> case_end(bool handles_must_be_balanced);
// digest of the interleaving-independent event sequence of this process
uint64_t case_events();
uint64_t case_sig();

// --- perturbation ---
void delays(double prob, unsigned max_us, uint64_t seed);
// fail the nth (1-based) next call of fn on this process with code `err`
void fault(const std::string& fn, int nth, int err);
int faults_hit();
void fault_clear();

// name of a communicator created by the harness itself
void name_comm(MPI_Comm c, const std::string& n);
void forget_comm(MPI_Comm c);
// ranks (world) that this process exchanged p2p/rma/collective traffic with
// outside the communicator named n since case_begin
uint64_t world_traffic();

std::map<std::string, uint64_t>& counters();
// counts of live handles by kind
std::map<std::string, size_t> live();

// RAII: calls made inside are the harness's own (not monitored)
struct Off {
    Off();
    ~Off();
};
}  // namespace pm

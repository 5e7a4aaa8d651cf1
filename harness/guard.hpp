// Interposed system and stdio calls (linked with -Wl,--wrap): file mappings are
// placed directly before an inaccessible page, mapping and descriptor life cycles
// are monitored, and single calls can be made to fail.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
namespace guard {
    // Monitors work only while armed (calls made by the library).
    void no_direct();   // memcheck looks into mapped files and cannot with O_DIRECT
    void arm(); void disarm();
    struct Scope { Scope() { arm(); } ~Scope() { disarm(); } };
    // Mapping monitor: live mappings, and protocol errors (double or foreign unmap).
    std::pair<char*, char*> near_map(char* a);   // the mapping whose guard pages hold the address (not locked: for signal handlers)
    size_t live_maps(); uint64_t total_maps(); std::string take_errors(); void reset();
    // Streams/descriptors opened by the library and not closed.
    size_t open_streams();
    // Fault injection: the k-th (from 0) interposed fallible call fails; -1 = none.
    void fail_at(long k, int how); bool fault_hit(); long calls(); const char* fault_name();
}

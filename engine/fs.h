// The library's file system calls, redirected: they act on a real scratch directory, each is a scheduling
// point, any can be made to fail, and none can change anything outside the scratch directory. See fs.cpp.
#pragma once
#include <string>
#include <vector>

namespace fs {
extern std::string base;    // this process's scratch directory, absolute, no trailing slash
extern bool refuse;         // calls that would change something outside fail and are recorded (else: violation)
extern std::vector<std::string> outside;  // those recorded
extern int faults;          // calls that may still be made to fail in this execution
extern bool removal_faults; // also those that remove files
extern std::vector<std::string> calls;    // calls made so far: "name path"
extern std::vector<std::pair<std::string, int>> injected;  // calls made to fail and with what error
extern void (*monitor)();   // called after every redirected call

void reset();               // empty scratch directory; to be called at the start of every execution
int open_files();           // descriptors, mappings and directory streams the library has not released
std::string leaked();       // what they are
std::string rel(const std::string& path);  // without the scratch directory
void died(int proc);        // what this process had open is released

bool waiting_for_events();  // is someone waiting for an event, and there is none?

// for drivers: a scheduling point and a change of the directory `path` is in
void step(const std::string& path);
}  // namespace fs

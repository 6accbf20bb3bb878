// C27: the converter's entry points as Python calls them, with TensorFlow's
// importer, exporter and passes as stand-ins that may fail.
#pragma once
#include <stdint.h>
#include <functional>
#include <string>
#include "gen_model.h"
namespace entry {
enum Count { kConversions, kModels, kErrors, kSavedModels, kReferences, kPythonThreads, kGilWaits, kBlocks, kWarnings, kSilent, kSays, kBreaks, kUserErrors, kStatuses, kMissingEntry, kControlFlow, kPassFails, kFreezeFails, kExportFails, kInvalidModule, kNotReached, kCounts };
extern const char* const names[kCounts];
extern uint64_t counts[kCounts];
extern uint64_t out;
extern void (*fail)(const std::string&);
extern bool verbose;
// what the run does
void Draw(gen::Rng& rng, const std::function<bool(const std::string&)>& event, const std::function<void(const std::string&)>& shape);
void Run();
bool Available();    // under the scheduler
void After();  // without it
}  // namespace entry

#pragma once
namespace sim {
char pat(uint64_t i);
std::string pattern(size_t n, uint64_t from = 0);
// a process the library knows nothing about, optionally a child of the application
ProcP spawn_foreign(const Str &script_args, bool child_of_app);
}

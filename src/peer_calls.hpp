// Calls made in two builds of the library; what they report is a text.
#pragma once
#include "pbt.hpp"
namespace peer {
extern std::string description; // of the latest run
extern size_t calls, failing;
extern std::string (*after_call)(); // adds to the text after every call
std::string run();
void compare(const char *own_name, const std::string &own, const char *other_name,
             const std::string &other);
} // namespace peer

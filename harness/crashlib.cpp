// lib/crashfs.hpp as a preloaded library, armed from outside C++
#include <filesystem>
#include "crashfs.hpp"
extern "C" {
void vf_arm(int mode, const char *root, long target) { crashfs::arm(static_cast<crashfs::Mode>(mode), root, target); }
long vf_disarm() { return crashfs::disarm(); }
}

// The library as it is compiled where <charconv> cannot convert floating point numbers (libc++ before 20): it then uses
// its own conversion functions. To be included before everything else.
#pragma once
#include <version>
#include <charconv>
#include <string>
#include <cerrno>
#include <cstdio>
#undef __cpp_lib_to_chars

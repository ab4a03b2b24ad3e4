// Streams of the code under test: std::cout, std::cerr, stdout and stderr are captured; std::fstream works on memory files.
// Symbolically, rt/io.cpp instantiates libstdc++'s own stream templates over a small model of what lies under them.
#pragma once
#include <cstddef>
#include <cstdint>
struct io_text { char b[60000]; size_t n = 0; bool lost = false; void put(char c) { if (n < sizeof b) b[n++] = c; else lost = true; } };
extern io_text io_out, io_err; // what went to standard output and standard error
void io_open(bool streams = true);  // starts capturing; without streams only stdout and stderr
void io_close();
struct io_file { uint8_t *b; size_t n, max; bool exists, replaced; unsigned opened; int fd; };
extern io_file io_files[2];         // the input and the output of a tool
const char *io_name(int i);         // the name that opens io_files[i]
void io_begin(); void io_end();     // around the code that opens the files

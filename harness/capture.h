// Captures what a program prints on standard output, through iostreams or stdio.
#pragma once
#include <cstdio>
#include <ext/stdio_sync_filebuf.h>
#include <iostream>
#include <string>
struct Capture {
  char *buf = nullptr;
  size_t len = 0;
  FILE *old = nullptr, *mem = nullptr;
  std::streambuf *oldBuf = nullptr;
  void begin() {
    mem = open_memstream(&buf, &len);
    old = stdout;
    stdout = mem;
    oldBuf = std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(mem));
  }
  std::string end() {
    std::cout.rdbuf(oldBuf);
    std::fflush(mem);
    stdout = old;
    return std::string(buf, len);
  }
};

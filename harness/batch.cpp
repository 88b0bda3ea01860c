// Runs a program of the repository (its main() renamed) many times in one process. Requests come on
// one pipe, answers go to another; fd 0, 1 and 2 are files that are fresh for every run, so whatever way the
// program writes, it is caught.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <stdio_ext.h>
#include <string>
#include <unistd.h>
#include <vector>

int hibp_app_main(int argc, char* argv[]);

namespace {
int  req_fd = 3, rsp_fd = 4;
bool read_all(void* p, std::size_t n) {
  auto* c = static_cast<char*>(p);
  while (n != 0) {
    ssize_t r = read(req_fd, c, n);
    if (r <= 0) return false;
    c += r;
    n -= static_cast<std::size_t>(r);
  }
  return true;
}
std::string read_str() {
  std::uint32_t n = 0;
  if (!read_all(&n, 4)) _exit(0);
  std::string s(n, '\0');
  if (!read_all(s.data(), n)) _exit(0);
  return s;
}
void reopen(int fd, const std::string& name, int flags) {
  int f = open(name.c_str(), flags, 0644);
  if (f < 0) _exit(77);
  dup2(f, fd);
  close(f);
}
} // namespace

int main(int argc, char** argv) {
  const std::string dir = argv[1]; // for the files out, err and in
  if (argc != 4) return 77;
  req_fd = std::atoi(argv[2]);
  rsp_fd = std::atoi(argv[3]);
  while (true) {
    std::uint32_t n = 0;
    if (!read_all(&n, 4)) return 0;
    std::vector<std::string> args(n);
    for (auto& a: args) a = read_str();
    const std::string in = read_str();
    {
      int f = open((dir + "/in").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (f < 0 || write(f, in.data(), in.size()) != static_cast<ssize_t>(in.size())) _exit(77);
      close(f);
    }
    reopen(0, dir + "/in", O_RDONLY);
    reopen(1, dir + "/out", O_WRONLY | O_CREAT | O_TRUNC);
    reopen(2, dir + "/err", O_WRONLY | O_CREAT | O_TRUNC);
    __fpurge(stdin);
    clearerr(stdin);
    std::cin.exceptions(std::ios::goodbit);
    std::cin.clear();
    std::cout.exceptions(std::ios::goodbit);
    std::cout.clear();
    std::cerr.clear();
    std::vector<char*> av;
    for (auto& a: args) av.push_back(a.data());
    av.push_back(nullptr);
    int rc = hibp_app_main(static_cast<int>(n), av.data());
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    fflush(stderr);
    std::int32_t r = rc;
    if (write(rsp_fd, &r, 4) != 4) return 1;
  }
}

// A quick stand-in for the API, for downloads of the whole range of prefixes. Contents are a function of seed, mode
// and prefix. Some answers are held back for a few milliseconds.
//   fullapi serve SEED        prints its port; ends at the end of its standard input and prints what it saw
//   With FULLAPI_RECORDS=K in the environment about K records for each prefix. With
//   FULLAPI_PROMPT no answer is held back.
//   fullapi expect SEED FORMAT LO HI FILE      what a download has to give: sha1 ntlm sha1t64, txt-sha1 txt-ntlm
#include <algorithm>
#include <arpa/inet.h>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <netinet/tcp.h>
#include <queue>
#include <string>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>

using u64 = std::uint64_t;

static u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15U;
  x = (x ^ (x >> 30U)) * 0xBF58476D1CE4E5B9U;
  x = (x ^ (x >> 27U)) * 0x94D049BB133111EBU;
  return x ^ (x >> 31U);
}

struct rec {
  std::string   hex; // of the whole hash
  std::uint32_t count;
};

static u64         seed;
static const char* many = std::getenv("FULLAPI_RECORDS");

static std::vector<rec> contents(std::uint32_t prefix, bool ntlm) {
  u64               h = mix(mix(seed) ^ (u64(prefix) << 1U) ^ u64(ntlm));
  std::vector<rec>  v;
  const std::size_t n = many ? std::strtoul(many, nullptr, 10) + h % 16 : h % 16 < 3 ? 0 : h % 16 < 13 ? 1 : h % 16 < 15 ? 2 : 3;
  for (std::size_t i = 0; i < n; i++) {
    char        b[64];
    std::string s;
    std::snprintf(b, sizeof b, "%05X", prefix);
    s = b;
    while (s.size() < (ntlm ? 32U : 40U)) {
      h = mix(h);
      std::snprintf(b, sizeof b, "%016llX", static_cast<unsigned long long>(h));
      s += b;
    }
    s.resize(ntlm ? 32 : 40);
    h = mix(h);
    v.push_back({s, static_cast<std::uint32_t>((h >> 8U) >> (33 + h % 24))});
  }
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.hex < b.hex; });
  return v;
}

static int expect(char** a) {
  const std::string fmt = a[0];
  const auto        lo = std::strtoul(a[1], nullptr, 0), hi = std::strtoul(a[2], nullptr, 0);
  FILE*             f   = std::fopen(a[3], "wb");
  const bool        txt = fmt.rfind("txt-", 0) == 0, ntlm = fmt.find("ntlm") != std::string::npos;
  for (auto p = lo; p < hi; p++) {
    for (auto& r: contents(p, ntlm)) {
      if (txt) {
        std::fprintf(f, "%s:%u\n", r.hex.c_str(), r.count);
      } else {
        for (std::size_t i = 0; i < (fmt == "sha1t64" ? 16 : r.hex.size()); i += 2) {
          std::fputc(std::stoi(r.hex.substr(i, 2), nullptr, 16), f);
        }
        for (int i = 0; i < 4; i++) { // as in memory
          std::fputc(static_cast<int>((r.count >> (8U * i)) & 0xffU), f);
        }
      }
    }
  }
  return std::fclose(f) == 0 ? 0 : 1;
}

struct conn {
  std::string in, out;
  bool        waits = false; // for room to send
};

int main(int argc, char** argv) {
  seed = std::strtoull(argv[2], nullptr, 0);
  if (!std::strcmp(argv[1], "expect")) return expect(argv + 3);
  using clk         = std::chrono::steady_clock;
  const int   lfd   = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
  sockaddr_in addr{};
  addr.sin_family      = AF_INET;
  addr.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (bind(lfd, reinterpret_cast<sockaddr*>(&addr), sizeof addr) != 0 || listen(lfd, 1024) != 0) return 3;
  socklen_t len = sizeof addr;
  getsockname(lfd, reinterpret_cast<sockaddr*>(&addr), &len);
  std::printf("%d\n", ntohs(addr.sin_port));
  std::fflush(stdout);
  fcntl(0, F_SETFL, O_NONBLOCK);
  const int   ep = epoll_create1(0);
  epoll_event e{};
  e.events  = EPOLLIN;
  e.data.fd = lfd;
  epoll_ctl(ep, EPOLL_CTL_ADD, lfd, &e);
  e.data.fd = 0;
  epoll_ctl(ep, EPOLL_CTL_ADD, 0, &e);
  std::map<int, conn>        conns;
  std::vector<std::uint16_t> times(1U << 20U);
  struct held {
    clk::time_point at;
    int             fd;
    std::uint32_t   p;
    bool            n;
    bool            operator<(const held& o) const { return at > o.at; }
  };
  std::priority_queue<held> wait;
  u64                       requests = 0, other = 0, plain = 0, ntlms = 0, switched = 0, lastp = 0, outstanding = 0, most = 0;
  auto watch = [&](int fd, unsigned events) {
    epoll_event w{};
    w.events  = events;
    w.data.fd = fd;
    epoll_ctl(ep, EPOLL_CTL_MOD, fd, &w);
  };
  auto send_ = [&](int fd) {
    auto& c = conns[fd];
    while (!c.out.empty()) {
      const auto k = write(fd, c.out.data(), c.out.size());
      if (k <= 0) {
        if (!c.waits) watch(fd, EPOLLIN | EPOLLOUT);
        c.waits = true;
        return;
      }
      c.out.erase(0, k);
    }
    if (c.waits) watch(fd, EPOLLIN);
    c.waits = false;
  };
  auto answer = [&](int fd, std::uint32_t p, bool n) {
    std::string body;
    for (auto& r: contents(p, n)) {
      if (!body.empty()) body += "\r\n";
      body += r.hex.substr(5) + ":" + std::to_string(r.count);
    }
    outstanding--;
    switched += p < lastp;
    lastp = p;
    conns[fd].out += "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    send_(fd);
  };
  bool go = true;
  while (go) {
    int ms = -1;
    if (!wait.empty()) {
      ms = static_cast<int>(std::max<long long>(0, std::chrono::duration_cast<std::chrono::milliseconds>(wait.top().at - clk::now()).count() + 1));
    }
    epoll_event ev[256];
    const int   k = epoll_wait(ep, ev, 256, ms);
    for (int i = 0; i < k; i++) {
      const int fd = ev[i].data.fd;
      if (fd == 0) {
        char b[16];
        if (read(0, b, sizeof b) == 0) go = false;
        continue;
      }
      if (fd == lfd) {
        int c = 0;
        while ((c = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK)) >= 0) {
          int one = 1;
          setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
          e.events  = EPOLLIN;
          e.data.fd = c;
          epoll_ctl(ep, EPOLL_CTL_ADD, c, &e);
          conns[c] = {};
        }
        continue;
      }
      if ((ev[i].events & EPOLLOUT) != 0U) send_(fd);
      if (ev[i].events == EPOLLOUT) continue;
      auto&      c = conns[fd];
      char       b[16384];
      const auto got = read(fd, b, sizeof b);
      if (got <= 0) {
        close(fd);
        conns.erase(fd);
        continue;
      }
      c.in.append(b, got);
      for (std::size_t end = 0; (end = c.in.find("\r\n\r\n")) != std::string::npos;) {
        const std::string head = c.in.substr(0, end);
        c.in.erase(0, end + 4);
        const auto at = head.find(" http://localhost:8090/");
        requests++;
        outstanding++;
        most = std::max(most, outstanding);
        if (head.rfind("GET ", 0) != 0 || at == std::string::npos) {
          other++;
          outstanding--;
          c.out += "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n";
          send_(fd);
          continue;
        }
        const auto p = static_cast<std::uint32_t>(std::strtoul(head.substr(at + 23, 5).c_str(), nullptr, 16));
        const bool n = head.compare(at + 28, 11, "?mode=ntlm ") == 0;
        if (!n && head[at + 28] != ' ') other++;
        (n ? ntlms : plain)++;
        times[p]++;
        const u64 h = mix(seed ^ 77 ^ p);
        if (std::getenv("FULLAPI_PROMPT") == nullptr && h % 64 == 0) {
          wait.push({clk::now() + std::chrono::milliseconds((h >> 8U) % 40), fd, p, n});
        } else {
          answer(fd, p, n);
        }
      }
    }
    while (!wait.empty() && wait.top().at <= clk::now()) {
      auto w = wait.top();
      wait.pop();
      if (conns.count(w.fd)) answer(w.fd, w.p, w.n);
    }
  }
  u64 once = 0, more = 0;
  for (auto t: times) {
    once += t == 1;
    more += t > 1;
  }
  std::printf("requests=%llu other=%llu plain=%llu ntlm=%llu once=%llu more=%llu outoforder=%llu most=%llu\n",
              (unsigned long long)requests, (unsigned long long)other, (unsigned long long)plain, (unsigned long long)ntlms,
              (unsigned long long)once, (unsigned long long)more, (unsigned long long)switched, (unsigned long long)most);
}

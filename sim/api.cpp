// Programs over the library interface: sequences of create, solve and destroy
// operations on several drivers in one process.
#include "Driver.hpp"
#include "Estimator.hpp"

#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <memory>
#include <string>
#include <system_error>
#include <thread>
#include <unistd.h>

// ops: comma separated; "c<slot><file letter>" create from <letter>.xml,
// "s<slot>" solve, "d<slot>" destroy, "h" report what is held, "p<slot><slot>" solve two at the same time
static std::string solve(Driver* driver, int n) {
  if (!driver) return "@@" + std::to_string(n) + " no driver\n";
  Driver& d = *driver;
  try {
    const auto result = d.Solve();
    return "@@" + std::to_string(n) + " solved\n" + std::to_string(d.batchsize) + "\n" + result.to_string() + "\n";
  } catch (...) {
    return "@@" + std::to_string(n) + " failed solve\n";
  }
}

static int report_fd, rc = 0;
static void put(const std::string& s) {
  if (write(report_fd, s.data(), s.size()) != (ssize_t)s.size()) rc = 3;
}

int api_main(const char* ops) {
  std::unique_ptr<Driver> slot[10];
  report_fd = open("api.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (report_fd < 0) return 3;
  int n = 0;
  for (const char* p = ops; *p;) {
    const char op = *p++;
    const int k = op == 'h' ? 0 : *p++ - '0';
    if (op == 'c') {
      const char letter = *p++;
      try {
        slot[k] = Driver::Create(std::string(1, letter) + ".xml");
        put("@@" + std::to_string(n) + " created\n");
      } catch (...) {
        put("@@" + std::to_string(n) + " failed create\n");
      }
    } else if (op == 's') {
      put(solve(slot[k].get(), n));
    } else if (op == 'p') {
      const int l = *p++ - '0';
      std::string other;
      const auto now = [&] { other = solve(slot[l].get(), 1000 * (n + 1) + l); };
      std::thread second;
      try { second = std::thread(now); } catch (const std::system_error&) { now(); }
      put(solve(slot[k].get(), 1000 * (n + 1) + k));
      if (second.joinable()) second.join();
      put(other);
    } else if (op == 'd') {
      slot[k].reset();
      put("@@" + std::to_string(n) + " destroyed\n");
    } else if (op == 'h') { // what is held now
      const auto h = sim::heap_now();
      put("@@" + std::to_string(n) + " held\n" + std::to_string(h) + " " + std::to_string(sim::fds_open()) + " " + std::to_string(sim::threads_alive()) + "\n");
    }
    n++;
    if (*p == ',') p++;
  }
  put("@@end\n");
  close(report_fd);
  return rc;
}

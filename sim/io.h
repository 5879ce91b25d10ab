// Simulated disk: files named simfs_* live in memory and every operation on them passes
// through the fault plan of the process (rank) that issues it.
#pragma once
#include "sim.h"
namespace sim {
struct IoPlan {                        // faults still to come; -1: none
  long enospc_at = -1;                 // total bytes accepted, then the disk is full
  long wr_fail = -1, rd_fail = -1;     // nth write / read operation fails with EIO
  bool sticky = false;                 // ... and all later ones
  long open_fail = -1, close_fail = -1;// nth open / close of a written file fails
  long lost = 1;                       // bytes lost when a close fails
  int shortw = 0, shortr = 0, eintr = 0; // percent of operations cut short / interrupted
  long bufsz = 0;                      // stdio buffer size (0: default)
};
struct IoStat { long wr_bytes = 0, wr_ops = 0, rd_ops = 0, rd_bytes = 0, opens = 0, closes = 0, faults = 0, partial = 0; };
IoPlan &io_plan();                     // of the current rank
IoStat &io_stat(), &io_stat(int rank);
void io_reset_stat();
std::map<std::string, std::string> io_files();        // all files and their contents
bool io_exists(const std::string &name);
std::string io_get(const std::string &name);
void io_put(const std::string &name, const std::string &data);
void io_remove(const std::string &name);
void io_remove_all();
extern int io_open_fds, io_open_files; // still open
}

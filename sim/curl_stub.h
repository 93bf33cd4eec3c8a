// Develop build: stands in for libcurl.  The viewer behind it is simulated;
// what happens to each transfer is part of the plan.
#pragma once
#include <vector>
#include "rt.h"

enum NetOutcome : int {
  N_OK = 0,        // delivered, answered
  N_REFUSED,       // no viewer listening
  N_TIMEOUT,       // delivered, answer lost
  N_CUT,           // connection lost while sending
  N_NOTHING,       // delivered, empty answer
  N_NOHANDLE,      // curl_easy_init fails
  N_NOMIME,        // curl_mime_init fails
  N_COUNT
};
extern const char* const net_names[N_COUNT];

void curl_stub_begin(const std::vector<int>& net);
void curl_stub_end(int* handles, int* parts);
// appends a record to the result area (exec.cpp)
void emit_post(int task, int op, int url, int outcome, const char* body, size_t n);

// The repository's Python reader in a server process, with its I/O behind a seam (see pyserver.py).
#pragma once
#include <string>
namespace sim { std::string pyread(const std::string &request); }   // one request, one answer

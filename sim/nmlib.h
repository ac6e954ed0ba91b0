// Interface between the simulator and the code compiled into each notmuch image.
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

struct NmMsg {
    std::string id;
    std::vector<std::string> files; // sorted, relative to the mail root
    std::set<std::string> tags;
    std::vector<std::pair<std::string, std::string>> props; // sorted
    std::string thread;
    uint64_t lastmod = 0;
    std::string from, subject;
    long date = 0;
    uint64_t fp = 0; // index terms, without those that name threads, directories, tags
    uint64_t vals = 0; // header values in the document
    int flags = 0;
};

struct NmState {
    int status = -1; // of opening
    std::string err;
    std::string uuid;
    uint64_t rev = 0;
    int version = 0;
    bool needs_upgrade = false;
    std::map<std::string, NmMsg> msgs;
    std::map<std::string, std::string> config;
    std::map<std::string, std::pair<std::string, std::string>> ghosts; // id -> thread
    std::map<std::string, int64_t> dirs;
    std::vector<std::string> problems; // internal contradictions
    bool ok () const { return status == 0; }
};

enum { NM_AUDIT = 1, NM_RAW = 2 };

extern "C" {
// observe the database of the mail tree at root
int nm_observe (const char *root, int flags, NmState *out);
// runs a client program (one operation per line) against the library; results go to log
int nm_client (const std::vector<std::string> *script, std::string *log);
}

// Reference model of queries and tag changes.
#pragma once
#include "core.h"

namespace sim {

// A query. In plans: prefix notation, ( and ( tag inbox ) ( not ( id m1@sim ) ) ), atoms percent-encoded.
struct Q {
    std::string op;       // all tag tagre id idre folder folderre path pathrec prop thread from subj year and or not xor
    VS a;
    std::vector<Q> sub;
    std::string str () const;
    static Q parse (const std::string &);
    std::string infix (bool top = true) const;
    std::string sexp () const;
    bool mentions (const std::string &tag) const;
};

struct QEnv { // what queries look at
    Model m;
    std::map<std::string, std::string> thread, from, subj;
    std::map<std::string, int> year;
};
QEnv qenv (Exec &x, const NmState &s);
SS eval (const QEnv &e, const Q &q);                     // message ids
std::string args_of (const Op &);
void apply_ops (SS &tags, const VS &ops, bool remove_all = false);
// the name the file gets when flags are synchronised with these tags (the same one if it is to stay)
std::string flag_name (const std::string &file, const SS &tags);
bool is_mailfile (const std::string &rel);               // lies directly in cur/ or new/
std::map<std::string, std::string> maildir_files (const FS &fs, const std::string &root); // cur/ and new/
std::map<std::string, std::string> all_files (const FS &fs, const std::string &root);     // all but .notmuch
std::string hexq (const std::string &tag);               // as in batch input and dumps
bool unhex (const std::string &s, std::string *out);

// generators
Q rquery (Gen &g, int depth);
VS rops (Gen &g, int lo, int hi, const VS &extra = {});
// tag commands with a known meaning: verbs tagq and batch (see w_tag.cc)
struct Stages { std::vector<Model> t; bool bad = false; }; // after each line
extern const VS excl;
Op real_op (const Op &o);
Stages stages_of (Exec &x, const Op &o, QEnv e);
Op gen_tagq (Gen &g);
Op gen_batch (Gen &g, bool bad);
std::string tags_differ (const Model &want, const Model &got);
}
namespace sim {
// a small JSON reader
struct J {
    char t = 0;             // o a s n b z (null)
    std::string s;
    double n = 0;
    std::vector<J> v;
    std::vector<std::pair<std::string, J>> o;
    const J *get (const std::string &k) const { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
};
bool json_parse (const std::string &s, J *out);
VS lines0 (const std::string &out);   // NUL or newline separated
}

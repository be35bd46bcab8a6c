// Random values of a message type, biased to boundaries.
#pragma once
#include "gpb.h"
#include "rng.h"

namespace vf
{
struct GenOpt
{
    int max_depth   = 6;
    int budget      = 60;   // fields to generate, roughly
    bool big        = true; // long strings and lists now and then
    bool nan        = true;
    bool ascii_only = false;
    bool empty_required = true; // required strings may be empty (the library leaves them out)
};
Value gen_message(Rng &r, const Desc *d, const GenOpt &o);
Value gen_scalar(Rng &r, const Field *f, const GenOpt &o);
bool recursive(const Desc *d); // messages of this type can be nested without end
// fields which lead from d to a recursive type
std::vector<const Field *> deep_fields(const Desc *d);
// a chain of `depth` nested messages (d must be recursive)
Value gen_deep(Rng &r, const Desc *d, int depth, const GenOpt &o);
// the strings and bytes of a value which have no limit (keys of maps excepted)
void free_strings(const Desc *d, Value &v, std::vector<std::pair<const Field *, Value *>> &out);
std::string gen_utf8(Rng &r, size_t bytes, const GenOpt &o);
size_t gen_len(Rng &r, bool big);
void put_utf8(std::string &s, uint32_t cp);
bool valid_utf8(const std::string &s); // independent reference (RFC 3629 table)
} // namespace vf

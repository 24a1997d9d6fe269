#pragma once
#include "pb_spec.h"
using namespace vp;
using namespace zpp::bits::options;
using zpp::bits::no_size;

// The message is written as `fields` lists it, to any place of a buffer of any
// size, and what was written decodes to an equal message.
template <typename Byte = std::byte, typename M, typename F, typename... Opt>
void message(M & m, F fields, Opt... opt)
{
    sink<Byte> s;
    pb_parts<Byte> want;
    fields(want);
    zpp::bits::out out{s.span, no_size{}, Opt(opt)...};
    out.reset(s.pos);
    const M & source = m;
    auto r = out(source);
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == s.pos + want.off, "the fields in order and nothing else");
        pb_parts<Byte> wrote{s.p + s.pos};
        fields(wrote);
        vp_assert(wrote.ok, "each field its tag and its payload");
        vp_assert(s.frame(s.pos, s.pos + want.off), "bytes outside are unchanged");
        std::span<Byte> part{s.p, s.pos + want.off};
        zpp::bits::in in{part, no_size{}, Opt(opt)...};
        in.reset(s.pos);
        M got{};
        vp_assert(success(in(got)), "it decodes");
        vp_assert(got == m, "to an equal message");
        vp_assert(in.position() == out.position(), "all of it");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(s.room() < want.off, "refused only when it does not fit");
        vp_assert(s.frame(s.pos, s.n), "bytes before are unchanged");
        vp_assert(out.position() >= s.pos && out.position() <= s.n, "position stays inside");
    }
}

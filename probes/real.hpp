// Repetitions of real content followed by a real tail, each matched by the
// library itself; only the repetition is the reference's.
#pragma once
#include "probe.hpp"
#include "ref.hpp"

template <ctll::fixed_string Text> using T = typename ctre::regex_builder<Text>::type;

namespace ref {
template <typename... Tail> struct Then {
	static H K(S s, I c, F f, H r) {
		return ctre::evaluate(probe::It{s.b}, probe::It{c}, probe::It{s.l}, probe::make_flags(f.blk, f.ml, f.ci), probe::R{probe::R::raw{r}}, ctll::list<Tail..., probe::KA<>, probe::KB>()).h;
	}
};
template <typename... Body> struct real_loop {
	static H body(S s, I c, F f, H r) {
		return ctre::evaluate(probe::It{s.b}, probe::It{c}, probe::It{s.l}, probe::make_flags(f.blk, f.ml, f.ci), probe::R{probe::R::raw{r}}, ctll::list<Body..., ctre::end_cycle_mark>()).h;
	}
};
}

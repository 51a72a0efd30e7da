// Analysis-only stand-in for <boost/foreach.hpp>: same iteration, expressed as a
// range-for so that the syntax tree and the control-flow graph stay readable.
// VF_FOREACH_ASSIGN: second form, for loops over a variable declared before the loop
// (functions that do not parse with the first form are parsed again with this one).
#ifndef BOOST_FOREACH
#include <boost/range/begin.hpp>
#include <boost/range/end.hpp>
#include <cstddef>
template <class C> const C & vf_reverse(const C & c) { return c; }
template <class C> C & vf_reverse(C & c) { return c; }
#ifndef VF_FOREACH_ASSIGN
#define BOOST_FOREACH(VAR, COL) for (VAR : COL)
#define BOOST_REVERSE_FOREACH(VAR, COL) for (VAR : ::vf_reverse(COL))
#else
#define BOOST_FOREACH(VAR, COL) for (auto && vf_elem : COL) if (bool vf_once = true) for (VAR = vf_elem; vf_once; vf_once = false)
#define BOOST_REVERSE_FOREACH(VAR, COL) BOOST_FOREACH(VAR, ::vf_reverse(COL))
#endif
#endif

// maybe.h - operations that are used only if the classes have them.

#ifndef MAYBE_H
#define MAYBE_H

#include <iterator>
#include <memory>
#include <type_traits>

template <class T> auto doClose (T& t, int) -> decltype (t.close(), bool()) { t.close(); return true; }
template <class T> bool doClose (T&, long) { return false; }

template <class T> auto doSetEnd (T& t, int n, int) -> decltype (t.setEndPos (n), bool()) { t.setEndPos (n); return true; }
template <class T> bool doSetEnd (T&, int, long) { return false; }

template <class T> auto doShift (T& t, int n, int) -> decltype (t.shiftEndPos (n), bool()) { t.shiftEndPos (n); return true; }
template <class T> bool doShift (T&, int, long) { return false; }

template <class G, class S> auto doAdd (G& g, int n, const S& s, int) -> decltype (g.addSylString (n, s), bool()) { g.addSylString (n, s); return true; }
template <class G, class S> bool doAdd (G&, int, const S&, long) { return false; }

// number of alternatives as told, or as found
template <class T> auto doCount (const T& t, int) -> decltype ((int) t.altCount()) { return t.altCount(); }
template <class T> int doCount (const T& t, long) { return std::distance (t.begin(), t.end()); }

template <class B, class T> std::unique_ptr<B> doMake (bool how, std::true_type) { return std::unique_ptr<B> (new T (how)); }
template <class B, class T> std::unique_ptr<B> doMake (bool, std::false_type) { return std::unique_ptr<B> (new T()); }

#endif

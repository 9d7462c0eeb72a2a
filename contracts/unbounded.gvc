package lib/unbounded

// ---- P20: the unbounded buffer ----
chan exact Unbounded.c
stable Unbounded.c :
monitor Unbounded.Mutex guards backlog c! [P20]

// content by absolute position: the reader advances the head, writers the tail
define tail(b) = chhead(b.c) + chlen(b.c) + len(b.backlog)
define at(b, i) = ite(i < chhead(b.c) + chlen(b.c), chitem(b.c, i), b.backlog[i - chhead(b.c) - chlen(b.c)])
define ok(b) = b != nil && b.c != nil && chcap(b.c) >= 1 && !closed(b.c)

func NewUnbounded() (b)
  ensures empty [P20]: ok(b) && fresh(b) && chlen(b.c) == 0 && len(b.backlog) == 0

// as its callers see it
func Unbounded.Put(b, t)
  noblock
  requires valid: ok(b)
  modifies b.backlog, elems(b.backlog), chanstate(b.c)

func Unbounded.Put@concurrent(b, t)
  concurrent
  noblock
  requires valid: ok(b)
  modifies all
  ensures lockTaken [P20]: locked("lib/unbounded.Unbounded.Mutex")
  ensures oneMore [P20]: rel("lib/unbounded.Unbounded.Mutex", tail(b)) == acq("lib/unbounded.Unbounded.Mutex", tail(b)) + 1
  ensures atTail [P20]: rel("lib/unbounded.Unbounded.Mutex", at(b, tail(b) - 1)) == t
  ensures keepsItems [P20]: all(i, int, rel("lib/unbounded.Unbounded.Mutex", chhead(b.c)) <= i && i < acq("lib/unbounded.Unbounded.Mutex", tail(b)) ==> rel("lib/unbounded.Unbounded.Mutex", at(b, i)) == acq("lib/unbounded.Unbounded.Mutex", at(b, i)))

func Unbounded.Put@alone(b, t)
  noblock
  requires valid: ok(b) && chlen(b.c) >= 0 && chlen(b.c) <= chcap(b.c)
  requires available: len(b.backlog) > 0 ==> chlen(b.c) > 0
  modifies b.backlog, elems(b.backlog), chanstate(b.c)
  ensures stillAvailable [P20]: chlen(b.c) > 0 && chhead(b.c) == old(chhead(b.c))

func Unbounded.Load(b)
  noblock
  requires valid: ok(b)
  modifies b.backlog, elems(b.backlog), chanstate(b.c)

func Unbounded.Load@concurrent(b)
  concurrent
  noblock
  requires valid: ok(b)
  modifies all
  ensures lockTaken [P20]: locked("lib/unbounded.Unbounded.Mutex")
  ensures sameItems [P20]: rel("lib/unbounded.Unbounded.Mutex", tail(b)) == acq("lib/unbounded.Unbounded.Mutex", tail(b))
  ensures keepsItems [P20]: all(i, int, rel("lib/unbounded.Unbounded.Mutex", chhead(b.c)) <= i && i < acq("lib/unbounded.Unbounded.Mutex", tail(b)) ==> rel("lib/unbounded.Unbounded.Mutex", at(b, i)) == acq("lib/unbounded.Unbounded.Mutex", at(b, i)))

func Unbounded.Load@alone(b)
  noblock
  requires valid: ok(b) && chlen(b.c) >= 0 && chlen(b.c) <= chcap(b.c)
  modifies b.backlog, elems(b.backlog), chanstate(b.c)
  ensures available [P20]: old(chlen(b.c)) + old(len(b.backlog)) > 0 ==> chlen(b.c) > 0
  ensures notRead [P20]: chhead(b.c) == old(chhead(b.c)) && len(b.backlog) <= old(len(b.backlog))

func Unbounded.Get(b) (c)
  requires valid: b != nil
  ensures readSide [P20]: c == b.c

func Unbounded.Len(b) (n)
  requires valid: b != nil
  ensures backlog [P20]: n == len(b.backlog)

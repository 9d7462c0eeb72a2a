package core/actor

// ---- P01: handler chains ----
// Event log of handler invocations: what was called, with which message, what it returned.
ghost evn int
ghost evf [int]int
ghost evm [int]int
ghost everr [int]val

stable DefaultChain.Before DefaultChain.After DefaultChain.Handler :
stable []EventHandler :

functype "core/actor.EventHandler" (w) (err)
  maypanic
  modifies all
  set evf[evn] := self
  set evm[evn] := w
  set everr[evn] := err
  set evn := evn + 1

define chainLen(c) = len(c.Before) + 1 + len(c.After)
define chainAt(c, i) = ite(i < len(c.Before), c.Before[i], ite(i == len(c.Before), c.Handler, c.After[i - len(c.Before) - 1]))

func DefaultChain.Execute(c, mw) (err)
  maypanic
  requires receiver: c != nil
  requires handlers: c.Handler != nil && all(i, int, 0 <= i && i < len(c.Before) ==> c.Before[i] != nil) && all(i, int, 0 <= i && i < len(c.After) ==> c.After[i] != nil)
  modifies all, evn, evf, evm, everr
  ensures ranInOrder [P01]: all(i, int, old(evn) <= i && i < evn ==> evf[i] == chainAt(c, i - old(evn)) && evm[i] == ref(mw))
  ensures noneAfterFailure [P01]: all(i, int, old(evn) <= i && i < evn - 1 ==> everr[i] == nil)
  ensures returnsLastError [P01]: evn > old(evn) && err == everr[evn - 1]
  ensures allRunOnSuccess [P01]: err == nil ==> evn == old(evn) + chainLen(c)
  ensures atMostOnce [P01]: evn <= old(evn) + chainLen(c)
  panics ranInOrder [P01]: all(i, int, old(evn) <= i && i < evn ==> evf[i] == chainAt(c, i - old(evn)) && evm[i] == ref(mw)) && evn <= old(evn) + chainLen(c)
  loop(_k int): evn == old(evn) + _k
  loop(_k int): evn == old(evn) + len(c.Before) + 1 + _k
  loop(_k int): _k <= len(c.Before)
  loop(_k int): _k <= len(c.After)
  loop(): all(i, int, old(evn) <= i && i < evn ==> evf[i] == chainAt(c, i - old(evn)) && evm[i] == ref(mw))
  loop(): all(i, int, old(evn) <= i && i < evn ==> everr[i] == nil)

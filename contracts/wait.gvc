package lib/warpwaitgroup

// ---- P36: the work counter ----
atomic WrapWaitGroup.counter WrapWaitGroup.wg [P36]


// what each operation contributes, whatever other goroutines do in between
func WrapWaitGroup.Add(w, d)
  inline
  concurrent
  maypanic
  mayrtpanic
  requires receiver: w != nil && 0 - 2147483648 <= d && d <= 2147483647
  modifies w.counter, w.wg
  ensures counted [P36]: delta(w.counter) == d
  ensures outstanding [P36]: delta(w.wg) == d

func WrapWaitGroup.Done(w)
  inline
  concurrent
  maypanic
  mayrtpanic
  requires receiver: w != nil
  modifies w.counter, w.wg
  ensures counted [P36]: delta(w.counter) == 0 - 1
  ensures outstanding [P36]: delta(w.wg) == 0 - 1
  // a waiter released by this call already sees the lower count
  ensures countFirst [P36]: acq("lib/warpwaitgroup.WrapWaitGroup.wg", delta(w.counter)) == 0 - 1

func WrapWaitGroup.Wait(w)
  inline
  requires receiver: w != nil
  modifies w.wg
  ensures drained [P36]: w.wg == 0

func WrapWaitGroup.Count(w) (n)
  inline
  requires receiver: w != nil
  ensures reads [P36]: n == w.counter

// run alone, the operations do not fail and keep count and outstanding work equal
func WrapWaitGroup.Add@alone(w, d)
  requires known: w != nil && 0 - 2147483648 <= d && d <= 2147483647 && w.wg + d >= 0 && w.counter == w.wg
  modifies w.counter, w.wg
  ensures equal [P36]: w.counter == w.wg && w.wg == old(w.wg) + d
func WrapWaitGroup.Done@alone(w)
  requires known: w != nil && w.wg > 0 && w.counter == w.wg
  modifies w.counter, w.wg
  ensures equal [P36]: w.counter == w.wg && w.wg == old(w.wg) - 1

package lib/mpsc

// ---- the mailbox queue, as its callers see it: a log of pushes and pops ----
ghost pn int
ghost pq [int]int
ghost pv [int]val
ghost popn int
ghost popq [int]int
ghost popv [int]val

stable Queue.C : lib/mpsc.New
define okq(q) = q != nil && q.C != nil

func New() (q)
  ensures empty [P02]: okq(q) && fresh(q) && fresh(q.C)
  ensures links: q.head != nil && q.tail != nil

func Queue.Push(q, x)
  requires queue: okq(q)
  inv links: q.head != nil && q.tail != nil
  modifies q.head, q.count, chanstate(q.C), heap(node, next)
  ensures usable [P02]: okq(q)
  set pq[pn] := ref(q)
  set pv[pn] := x
  set pn := pn + 1

func Queue.Pop(q) (v)
  requires queue: q != nil
  inv links: q.head != nil && q.tail != nil
  modifies q.tail, q.count, chanstate(q.C), heap(node, val)
  set popq[popn] := ref(q)
  set popv[popn] := v
  set popn := popn + 1

func Queue.Empty(q) (e)
  requires queue: q != nil
  inv links: q.head != nil && q.tail != nil
func Queue.Count(q) (n)
  requires queue: q != nil

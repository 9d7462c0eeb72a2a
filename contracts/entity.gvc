package core

// ---- P29: version strategies (core/entity.go) ----
global errNotFound [P29]: ErrNotfoundVersion != nil
global errRepeat [P15]: ErrActorRegisterRepeat != nil
monitor verRMu guards verList [P32]

define isGreater(w, ver) = w > ver && ex(i, int, 0 <= i && i < len(verList) && verList[i].Version == w)

func RegisterVersionStrategy(s)
  modifies all
  ensures appended [P29]: len(verList) == old(len(verList)) + 1 && verList[old(len(verList))].Version == s.Version && verList[old(len(verList))].Reason == s.Reason && verList[old(len(verList))].Func == s.Func
  ensures keepsOrder [P29]: all(i, int, 0 <= i && i < old(len(verList)) ==> verList[i].Version == old(verList[i].Version) && verList[i].Func == old(verList[i].Func) && verList[i].Reason == old(verList[i].Reason))

func GetVerStrategy(ver) (vs, err)

  ensures foundFirst [P29]: err == nil ==> ex(i, int, 0 <= i && i < len(verList) && verList[i].Version == ver && vs.Version == ver && vs.Func == verList[i].Func && vs.Reason == verList[i].Reason && all(j, int, 0 <= j && j < i ==> verList[j].Version != ver))
  ensures notFound [P29]: err != nil ==> err == ErrNotfoundVersion && all(j, int, 0 <= j && j < len(verList) ==> verList[j].Version != ver)
  ensures reportsMissing [P29]: all(j, int, 0 <= j && j < len(verList) ==> verList[j].Version != ver) ==> err != nil
  loop(_k int): 0 <= _k && _k <= len(verList) && all(j, int, 0 <= j && j < _k ==> verList[j].Version != ver)

func GetNextVersion(ver) (next)
  ensures atLeast [P29]: next >= ver
  ensures registered [P29]: next == ver || isGreater(next, ver)
  ensures smallest [P29]: all(j, int, 0 <= j && j < len(verList) && verList[j].Version > ver ==> next > ver && next <= verList[j].Version)
  loop(n int): n >= ver && (n == ver || isGreater(n, ver))
  loop(_k int, n int): all(j, int, 0 <= j && j < _k && verList[j].Version > ver ==> n > ver && n <= verList[j].Version)

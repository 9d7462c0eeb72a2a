package core/actor

// ---- P34: builder options ----
func ActorLoaderBuilder.WithOpt(p, key, value) (r)
  requires receiver: p != nil
  modifies p.Options
  ensures set [P34]: has(p.Options, key) && p.Options[key] == value
  ensures keepsOthers [P34]: all(k, string, k != key ==> (has(p.Options, k) <==> old(has(p.Options, k))) && p.Options[k] == old(p.Options[k]))
  ensures sameBuilder [P34]: unbox(r, *ActorLoaderBuilder) == p && typeis(r, *ActorLoaderBuilder)
  loop(_m map[string]string): all(k, string, visited()[k] ==> has(_m, k) && _m[k] == p.Options[k])
  loop(_m map[string]string): all(k, string, has(_m, k) ==> visited()[k])
  loop(_m map[string]string): _m != nil

func ActorLoaderBuilder.GetOpt(p, key) (v)
  requires receiver: p != nil
  ensures reads [P34]: v == p.Options[key]

func ActorLoaderBuilder.GetOptions(p) (m)
  requires receiver: p != nil
  ensures reads [P34]: m == p.Options

func ActorLoaderBuilder.WithID(p, id) (r)
  maypanic
  requires receiver: p != nil
  modifies p.ID
  ensures set [P34]: p.ID == id && id != "" && typeis(r, *ActorLoaderBuilder) && unbox(r, *ActorLoaderBuilder) == p
  panics onlyEmpty [P34]: id == ""

func ActorLoaderBuilder.WithType(p, ty) (r)
  requires receiver: p != nil
  modifies p.Name
  ensures set [P34]: p.Name == ty && typeis(r, *ActorLoaderBuilder) && unbox(r, *ActorLoaderBuilder) == p

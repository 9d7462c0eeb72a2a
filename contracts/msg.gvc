package router/msg
import context context
import router github.com/pojol/braid/router
import wg github.com/pojol/braid/lib/warpwaitgroup
import msgpack github.com/vmihailenco/msgpack/v5

trusted lib/log.* : logging has no effect on the state the properties speak about

// contexts: the value stored under a key, seen through derived contexts
ufun ctxvals(val) [val]val
define ctxval(c, k) = sel(ctxvals(c), k)
// the cancellation a context carries (derived value contexts share their parent's)
ufun ctxdone(val) int

extern context.WithValue(parent, key, v) (c)
  requires parent: parent != nil
  ensures derived: c != nil && ctxvals(c) == store(ctxvals(parent), key, v) && ctxdone(c) == ctxdone(parent)
extern context.Background() (c)
  ensures some: c != nil && ctxvals(c) == constarr("[val]val", nil)
iface context.Context.Value(c, k) (v)
  ensures def: v == ctxval(c, k)

ufun packed(val) string
ufun packok(val) bool
extern msgpack.Marshal(v) (b, err)
  ensures def: (err == nil <==> packok(v)) && (err == nil ==> str(b) == packed(v))

stable WrapperParm.CustomMapSerialize WrapperParm.CustomObjSerialize :

define wgOf(c) = ctxval(c, box(zero(WaitGroupKey), WaitGroupKey))
define jsonMap(w) = typeis(w.parm.CustomMapSerialize, *CustomJsonSerialize)
define msgpackObj(w) = typeis(w.parm.CustomObjSerialize, *CustomObjectSerialize)

// ---- P23: building and copying messages ----
func NewBuilder(ctx, opts) (b)
  requires context: ctx != nil
  ensures fresh [P23]: b != nil && fresh(b) && b.wrapper != nil && fresh(b.wrapper) && b.wrapper.Req != nil && b.wrapper.Res != nil && b.wrapper.Req != b.wrapper.Res && b.wrapper.Req.Header != nil && b.wrapper.Res.Header != nil && b.wrapper.Req.Header != b.wrapper.Res.Header && fresh(b.wrapper.Req) && fresh(b.wrapper.Res) && fresh(b.wrapper.Req.Header) && fresh(b.wrapper.Res.Header) && b.wrapper.Err == nil
  ensures serialisers [P21,P23]: jsonMap(b.wrapper) && msgpackObj(b.wrapper)
  ensures counter [P23]: b.wrapper.Ctx != nil && typeis(wgOf(b.wrapper.Ctx), *wg.WrapWaitGroup)
  ensures shared [P23]: typeis(wgOf(ctx), *wg.WrapWaitGroup) ==> wgOf(b.wrapper.Ctx) == wgOf(ctx)
  ensures own [P23]: !typeis(wgOf(ctx), *wg.WrapWaitGroup) ==> fresh(unbox(wgOf(b.wrapper.Ctx), *wg.WrapWaitGroup)) && unbox(wgOf(b.wrapper.Ctx), *wg.WrapWaitGroup).counter == 0 && unbox(wgOf(b.wrapper.Ctx), *wg.WrapWaitGroup).wg == 0
  ensures keepsContext [P23]: all(k, val, k != box(zero(WaitGroupKey), WaitGroupKey) ==> ctxval(b.wrapper.Ctx, k) == ctxval(ctx, k)) && ctxdone(b.wrapper.Ctx) == ctxdone(ctx)

func Swap(mw) (r)
  requires message: mw != nil && mw.Ctx != nil
  ensures copy [P23]: r != nil && fresh(r) && r.Req == mw.Req && r.Res == mw.Res && r.parm.CustomMapSerialize == mw.parm.CustomMapSerialize && r.parm.CustomObjSerialize == mw.parm.CustomObjSerialize && r.Err == nil
  ensures ownCounter [P23]: typeis(wgOf(r.Ctx), *wg.WrapWaitGroup) && fresh(unbox(wgOf(r.Ctx), *wg.WrapWaitGroup)) && unbox(wgOf(r.Ctx), *wg.WrapWaitGroup).counter == 0 && unbox(wgOf(r.Ctx), *wg.WrapWaitGroup).wg == 0
  ensures sameContext [P23]: r.Ctx != nil && ctxdone(r.Ctx) == ctxdone(mw.Ctx) && all(k, val, k != box(zero(WaitGroupKey), WaitGroupKey) ==> ctxval(r.Ctx, k) == ctxval(mw.Ctx, k))

define sameHeader(a, b) = a.ID == b.ID && a.Event == b.Event && a.OrgActorID == b.OrgActorID && a.OrgActorType == b.OrgActorType && a.Token == b.Token && a.PrevActorType == b.PrevActorType && a.TargetActorID == b.TargetActorID && a.TargetActorType == b.TargetActorType && a.Timestamp == b.Timestamp && a.Custom == b.Custom

func MsgBuilder.WithReqHeader(b, h) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Req != nil
  modifies b.wrapper.Req.Header, fields(b.wrapper.Req.Header)
  ensures chained [P23]: r == b
  ensures equal [P23]: h != nil ==> b.wrapper.Req.Header != nil && sameHeader(b.wrapper.Req.Header, h)
  ensures givenUnchanged [P23]: h != nil ==> sameHeader(old(h), h) && h.ID == old(h.ID) && h.Event == old(h.Event) && h.TargetActorID == old(h.TargetActorID) && h.TargetActorType == old(h.TargetActorType) && h.Token == old(h.Token) && h.OrgActorID == old(h.OrgActorID) && h.OrgActorType == old(h.OrgActorType) && h.PrevActorType == old(h.PrevActorType) && h.Timestamp == old(h.Timestamp) && h.Custom == old(h.Custom)
  ensures none [P23]: h == nil ==> b.wrapper.Req.Header == nil
func MsgBuilder.WithReqBody(b, byt) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Req != nil
  modifies b.wrapper.Req.Body
  ensures stored [P23]: r == b && b.wrapper.Req.Body == byt && str(byt) == str(old(byt))
func MsgBuilder.WithResHeader(b, h) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Res != nil
  modifies b.wrapper.Res.Header
  ensures stored [P23]: r == b && b.wrapper.Res.Header == h
func MsgBuilder.WithResBody(b, byt) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Res != nil
  modifies b.wrapper.Res.Body
  ensures stored [P23]: r == b && b.wrapper.Res.Body == byt && str(byt) == str(old(byt))
func MsgBuilder.Build(b) (w)
  requires receiver: b != nil
  ensures built [P23]: w == b.wrapper
func Wrapper.ToBuilder(mw) (b)
  ensures wraps [P23]: b != nil && fresh(b) && (mw != nil ==> b.wrapper == mw) && (mw == nil ==> b.wrapper != nil && fresh(b.wrapper))
func Wrapper.GetWg(mw) (g)
  requires message: mw != nil && mw.Ctx != nil
  ensures counter [P23]: (typeis(wgOf(mw.Ctx), *wg.WrapWaitGroup) ==> g == unbox(wgOf(mw.Ctx), *wg.WrapWaitGroup)) && (!typeis(wgOf(mw.Ctx), *wg.WrapWaitGroup) ==> g == nil)

// ---- P21: adding custom fields ----

define prevReq(b) = str(old(b.wrapper.Req.Header.Custom))
define hadPrevReq(b) = len(old(b.wrapper.Req.Header.Custom)) > 0
define readableReq(b) = !hadPrevReq(b) || jok(map[string]any, prevReq(b))
define beforeReq(b, k) = hadPrevReq(b) && !jnull(prevReq(b)) && jhas(prevReq(b), k)
define nowReq(b) = str(b.wrapper.Req.Header.Custom)
define lastReq(attrs, i, n) = all(j, int, i < j && j < n ==> attrs[j].Key != attrs[i].Key)

func MsgBuilder.WithReqCustomFields(b, attrs) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Req != nil && b.wrapper.Req.Header != nil && jsonMap(b.wrapper)
  modifies b.wrapper.Err, b.wrapper.Req.Header.Custom
  ensures chained [P21]: r == b
  ensures unreadable [P21]: !readableReq(b) ==> b.wrapper.Err != nil && unchangedCustomReq(b)
  ensures unencodable [P21]: readableReq(b) && ex(i, int, 0 <= i && i < len(attrs) && lastReq(attrs, i, len(attrs)) && !jvalok(attrs[i].Value)) ==> b.wrapper.Err != nil && unchangedCustomReq(b)
  ensures stored [P21]: readableReq(b) && all(i, int, 0 <= i && i < len(attrs) && lastReq(attrs, i, len(attrs)) ==> jvalok(attrs[i].Value)) ==> b.wrapper.Err == old(b.wrapper.Err) && jok(map[string]any, nowReq(b)) && len(b.wrapper.Req.Header.Custom) > 0 && !jnull(nowReq(b))
  ensures noNewError [P21]: b.wrapper.Err == old(b.wrapper.Err) || b.wrapper.Err != nil
  ensures given [P21]: readableReq(b) && !unchangedCustomReq(b) ==> all(i, int, 0 <= i && i < len(attrs) ==> jhas(nowReq(b), attrs[i].Key) && (lastReq(attrs, i, len(attrs)) ==> jget(nowReq(b), attrs[i].Key) == jnorm(attrs[i].Value)))
  ensures keepsOthers [P21]: readableReq(b) && !unchangedCustomReq(b) ==> all(k, string, beforeReq(b, k) ==> jhas(nowReq(b), k)) && all(k, string, beforeReq(b, k) && all(i, int, 0 <= i && i < len(attrs) ==> attrs[i].Key != k) ==> jget(nowReq(b), k) == jget(prevReq(b), k))
  ensures onlyThose [P21]: readableReq(b) && !unchangedCustomReq(b) ==> all(k, string, jhas(nowReq(b), k) ==> beforeReq(b, k) || ex(i, int, 0 <= i && i < len(attrs) && attrs[i].Key == k))
  loop(_m map[string]any): _m != nil
  loop(_k int, _m map[string]any): all(j, int, 0 <= j && j < _k ==> has(_m, attrs[j].Key))
  loop(_m map[string]any): all(k, string, beforeReq(b, k) ==> has(_m, k))
  loop(_k int, _m map[string]any): all(k, string, has(_m, k) ==> beforeReq(b, k) && _m[k] == jget(prevReq(b), k) || ex(j, int, 0 <= j && j < _k && attrs[j].Key == k && lastReq(attrs, j, _k) && _m[k] == attrs[j].Value))
  loop(_k int, _m map[string]any): all(j, int, 0 <= j && j < _k && lastReq(attrs, j, _k) ==> _m[attrs[j].Key] == attrs[j].Value)
  loop(_k int, _m map[string]any): all(k, string, beforeReq(b, k) && all(j, int, 0 <= j && j < _k ==> attrs[j].Key != k) ==> _m[k] == jget(prevReq(b), k))

define unchangedCustomReq(b) = b.wrapper.Req.Header.Custom == old(b.wrapper.Req.Header.Custom)

func MsgBuilder.WithReqCustomFieldsMap(b, data) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Req != nil && b.wrapper.Req.Header != nil && jsonMap(b.wrapper)
  modifies b.wrapper.Err, b.wrapper.Req.Header.Custom
  ensures chained [P21]: r == b
  ensures stored [P21]: jmok(jenc(data)) ==> str(b.wrapper.Req.Header.Custom) == jenc(data) && len(b.wrapper.Req.Header.Custom) > 0 && b.wrapper.Err == old(b.wrapper.Err)
  ensures failed [P21]: !jmok(jenc(data)) ==> b.wrapper.Err != nil && unchangedCustomReq(b)

func MsgBuilder.WithReqCustomObject(b, v) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Req != nil && b.wrapper.Req.Header != nil && msgpackObj(b.wrapper)
  modifies b.wrapper.Err, b.wrapper.Req.Header.Custom
  ensures chained [P21]: r == b
  ensures stored [P21]: packok(v) ==> str(b.wrapper.Req.Header.Custom) == packed(v) && b.wrapper.Err == old(b.wrapper.Err)
  ensures failed [P21]: !packok(v) ==> b.wrapper.Err != nil && unchangedCustomReq(b)

define prevRes(b) = str(old(b.wrapper.Res.Header.Custom))
define hadPrevRes(b) = len(old(b.wrapper.Res.Header.Custom)) > 0
define readableRes(b) = !hadPrevRes(b) || jok(map[string]any, prevRes(b))
define beforeRes(b, k) = hadPrevRes(b) && !jnull(prevRes(b)) && jhas(prevRes(b), k)
define nowRes(b) = str(b.wrapper.Res.Header.Custom)
define lastRes(attrs, i, n) = all(j, int, i < j && j < n ==> attrs[j].Key != attrs[i].Key)

func MsgBuilder.WithResCustomFields(b, attrs) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Res != nil && b.wrapper.Res.Header != nil && jsonMap(b.wrapper)
  modifies b.wrapper.Err, b.wrapper.Res.Header.Custom
  ensures chained [P21]: r == b
  ensures unreadable [P21]: !readableRes(b) ==> b.wrapper.Err != nil && unchangedCustomRes(b)
  ensures unencodable [P21]: readableRes(b) && ex(i, int, 0 <= i && i < len(attrs) && lastRes(attrs, i, len(attrs)) && !jvalok(attrs[i].Value)) ==> b.wrapper.Err != nil && unchangedCustomRes(b)
  ensures stored [P21]: readableRes(b) && all(i, int, 0 <= i && i < len(attrs) && lastRes(attrs, i, len(attrs)) ==> jvalok(attrs[i].Value)) ==> b.wrapper.Err == old(b.wrapper.Err) && jok(map[string]any, nowRes(b)) && len(b.wrapper.Res.Header.Custom) > 0 && !jnull(nowRes(b))
  ensures noNewError [P21]: b.wrapper.Err == old(b.wrapper.Err) || b.wrapper.Err != nil
  ensures given [P21]: readableRes(b) && !unchangedCustomRes(b) ==> all(i, int, 0 <= i && i < len(attrs) ==> jhas(nowRes(b), attrs[i].Key) && (lastRes(attrs, i, len(attrs)) ==> jget(nowRes(b), attrs[i].Key) == jnorm(attrs[i].Value)))
  ensures keepsOthers [P21]: readableRes(b) && !unchangedCustomRes(b) ==> all(k, string, beforeRes(b, k) ==> jhas(nowRes(b), k)) && all(k, string, beforeRes(b, k) && all(i, int, 0 <= i && i < len(attrs) ==> attrs[i].Key != k) ==> jget(nowRes(b), k) == jget(prevRes(b), k))
  ensures onlyThose [P21]: readableRes(b) && !unchangedCustomRes(b) ==> all(k, string, jhas(nowRes(b), k) ==> beforeRes(b, k) || ex(i, int, 0 <= i && i < len(attrs) && attrs[i].Key == k))
  loop(_m map[string]any): _m != nil
  loop(_k int, _m map[string]any): all(j, int, 0 <= j && j < _k ==> has(_m, attrs[j].Key))
  loop(_m map[string]any): all(k, string, beforeRes(b, k) ==> has(_m, k))
  loop(_k int, _m map[string]any): all(k, string, has(_m, k) ==> beforeRes(b, k) && _m[k] == jget(prevRes(b), k) || ex(j, int, 0 <= j && j < _k && attrs[j].Key == k && lastRes(attrs, j, _k) && _m[k] == attrs[j].Value))
  loop(_k int, _m map[string]any): all(j, int, 0 <= j && j < _k && lastRes(attrs, j, _k) ==> _m[attrs[j].Key] == attrs[j].Value)
  loop(_k int, _m map[string]any): all(k, string, beforeRes(b, k) && all(j, int, 0 <= j && j < _k ==> attrs[j].Key != k) ==> _m[k] == jget(prevRes(b), k))

define unchangedCustomRes(b) = b.wrapper.Res.Header.Custom == old(b.wrapper.Res.Header.Custom)

func MsgBuilder.WithResCustomFieldsMap(b, data) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Res != nil && b.wrapper.Res.Header != nil && jsonMap(b.wrapper)
  modifies b.wrapper.Err, b.wrapper.Res.Header.Custom
  ensures chained [P21]: r == b
  ensures stored [P21]: jmok(jenc(data)) ==> str(b.wrapper.Res.Header.Custom) == jenc(data) && len(b.wrapper.Res.Header.Custom) > 0 && b.wrapper.Err == old(b.wrapper.Err)
  ensures failed [P21]: !jmok(jenc(data)) ==> b.wrapper.Err != nil && unchangedCustomRes(b)

func MsgBuilder.WithResCustomObject(b, v) (r)
  requires message: b != nil && b.wrapper != nil && b.wrapper.Res != nil && b.wrapper.Res.Header != nil && msgpackObj(b.wrapper)
  modifies b.wrapper.Err, b.wrapper.Res.Header.Custom
  ensures chained [P21]: r == b
  ensures stored [P21]: packok(v) ==> str(b.wrapper.Res.Header.Custom) == packed(v) && b.wrapper.Err == old(b.wrapper.Err)
  ensures failed [P21]: !packok(v) ==> b.wrapper.Err != nil && unchangedCustomRes(b)

// ---- P22: reading custom fields ----

define textReq(w) = str(w.Req.Header.Custom)
define presentReq(w, k) = len(w.Req.Header.Custom) > 0 && jok(map[string]any, textReq(w)) && !jnull(textReq(w)) && jhas(textReq(w), k)

func Wrapper.GetReqCustomMap(w) (m, err)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures none [P22]: len(w.Req.Header.Custom) == 0 ==> err != nil
  ensures decodes [P22]: len(w.Req.Header.Custom) > 0 ==> (err == nil <==> jok(map[string]any, textReq(w)))
  ensures fields [P22]: err == nil ==> all(k, string, has(m, k) <==> presentReq(w, k)) && all(k, string, has(m, k) ==> m[k] == jget(textReq(w), k))

func GetReqCustomField[int](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), int) ==> r == unbox(jget(textReq(w), key), int)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), int) && typeis(jget(textReq(w), key), float64) ==> r == conv(int, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), int) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[uint](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), uint) ==> r == unbox(jget(textReq(w), key), uint)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), uint) && typeis(jget(textReq(w), key), float64) ==> r == conv(uint, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), uint) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[int8](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), int8) ==> r == unbox(jget(textReq(w), key), int8)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), int8) && typeis(jget(textReq(w), key), float64) ==> r == conv(int8, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), int8) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[uint8](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), uint8) ==> r == unbox(jget(textReq(w), key), uint8)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), uint8) && typeis(jget(textReq(w), key), float64) ==> r == conv(uint8, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), uint8) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[int16](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), int16) ==> r == unbox(jget(textReq(w), key), int16)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), int16) && typeis(jget(textReq(w), key), float64) ==> r == conv(int16, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), int16) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[uint16](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), uint16) ==> r == unbox(jget(textReq(w), key), uint16)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), uint16) && typeis(jget(textReq(w), key), float64) ==> r == conv(uint16, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), uint16) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[int32](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), int32) ==> r == unbox(jget(textReq(w), key), int32)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), int32) && typeis(jget(textReq(w), key), float64) ==> r == conv(int32, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), int32) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[uint32](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), uint32) ==> r == unbox(jget(textReq(w), key), uint32)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), uint32) && typeis(jget(textReq(w), key), float64) ==> r == conv(uint32, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), uint32) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[int64](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), int64) ==> r == unbox(jget(textReq(w), key), int64)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), int64) && typeis(jget(textReq(w), key), float64) ==> r == conv(int64, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), int64) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[uint64](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), uint64) ==> r == unbox(jget(textReq(w), key), uint64)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), uint64) && typeis(jget(textReq(w), key), float64) ==> r == conv(uint64, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), uint64) && !typeis(jget(textReq(w), key), float64) ==> r == 0

func GetReqCustomField[float32](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), float32) ==> r == unbox(jget(textReq(w), key), float32)
  ensures converted [P22]: presentReq(w, key) && !typeis(jget(textReq(w), key), float32) && typeis(jget(textReq(w), key), float64) ==> r == conv(float32, unbox(jget(textReq(w), key), float64))
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), float32) && !typeis(jget(textReq(w), key), float64) ==> r == zero(float32)

func GetReqCustomField[float64](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), float64) ==> r == unbox(jget(textReq(w), key), float64)
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), float64) ==> r == zero(float64)

func GetReqCustomField[string](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), string) ==> r == unbox(jget(textReq(w), key), string)
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), string) ==> r == ""

func GetReqCustomField[bool](w, key) (r)
  requires message: w != nil && w.Req != nil && w.Req.Header != nil
  ensures stored [P22]: presentReq(w, key) && typeis(jget(textReq(w), key), bool) ==> r == unbox(jget(textReq(w), key), bool)
  ensures zero [P22]: !presentReq(w, key) || !typeis(jget(textReq(w), key), bool) ==> r == false

define textRes(w) = str(w.Res.Header.Custom)
define presentRes(w, k) = len(w.Res.Header.Custom) > 0 && jok(map[string]any, textRes(w)) && !jnull(textRes(w)) && jhas(textRes(w), k)

func Wrapper.GetResCustomMap(w) (m, err)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures none [P22]: len(w.Res.Header.Custom) == 0 ==> err != nil
  ensures decodes [P22]: len(w.Res.Header.Custom) > 0 ==> (err == nil <==> jok(map[string]any, textRes(w)))
  ensures fields [P22]: err == nil ==> all(k, string, has(m, k) <==> presentRes(w, k)) && all(k, string, has(m, k) ==> m[k] == jget(textRes(w), k))

func GetResCustomField[int](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), int) ==> r == unbox(jget(textRes(w), key), int)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), int) && typeis(jget(textRes(w), key), float64) ==> r == conv(int, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), int) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[uint](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), uint) ==> r == unbox(jget(textRes(w), key), uint)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), uint) && typeis(jget(textRes(w), key), float64) ==> r == conv(uint, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), uint) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[int8](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), int8) ==> r == unbox(jget(textRes(w), key), int8)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), int8) && typeis(jget(textRes(w), key), float64) ==> r == conv(int8, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), int8) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[uint8](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), uint8) ==> r == unbox(jget(textRes(w), key), uint8)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), uint8) && typeis(jget(textRes(w), key), float64) ==> r == conv(uint8, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), uint8) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[int16](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), int16) ==> r == unbox(jget(textRes(w), key), int16)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), int16) && typeis(jget(textRes(w), key), float64) ==> r == conv(int16, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), int16) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[uint16](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), uint16) ==> r == unbox(jget(textRes(w), key), uint16)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), uint16) && typeis(jget(textRes(w), key), float64) ==> r == conv(uint16, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), uint16) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[int32](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), int32) ==> r == unbox(jget(textRes(w), key), int32)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), int32) && typeis(jget(textRes(w), key), float64) ==> r == conv(int32, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), int32) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[uint32](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), uint32) ==> r == unbox(jget(textRes(w), key), uint32)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), uint32) && typeis(jget(textRes(w), key), float64) ==> r == conv(uint32, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), uint32) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[int64](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), int64) ==> r == unbox(jget(textRes(w), key), int64)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), int64) && typeis(jget(textRes(w), key), float64) ==> r == conv(int64, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), int64) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[uint64](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), uint64) ==> r == unbox(jget(textRes(w), key), uint64)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), uint64) && typeis(jget(textRes(w), key), float64) ==> r == conv(uint64, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), uint64) && !typeis(jget(textRes(w), key), float64) ==> r == 0

func GetResCustomField[float32](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), float32) ==> r == unbox(jget(textRes(w), key), float32)
  ensures converted [P22]: presentRes(w, key) && !typeis(jget(textRes(w), key), float32) && typeis(jget(textRes(w), key), float64) ==> r == conv(float32, unbox(jget(textRes(w), key), float64))
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), float32) && !typeis(jget(textRes(w), key), float64) ==> r == zero(float32)

func GetResCustomField[float64](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), float64) ==> r == unbox(jget(textRes(w), key), float64)
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), float64) ==> r == zero(float64)

func GetResCustomField[string](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), string) ==> r == unbox(jget(textRes(w), key), string)
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), string) ==> r == ""

func GetResCustomField[bool](w, key) (r)
  requires message: w != nil && w.Res != nil && w.Res.Header != nil
  ensures stored [P22]: presentRes(w, key) && typeis(jget(textRes(w), key), bool) ==> r == unbox(jget(textRes(w), key), bool)
  ensures zero [P22]: !presentRes(w, key) || !typeis(jget(textRes(w), key), bool) ==> r == false

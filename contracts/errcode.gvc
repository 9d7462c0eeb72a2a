package lib/errcode
import errors github.com/pkg/errors

// ---- P25: error codes ----
// root(e): the error errors.Cause unwraps e to
ufun root(val) val
ufun errmsg(val) string

global okCode [P25]: OK.code == 0

extern errors.Cause(e) (r)
  ensures def: r == root(e)

ufun codeOf(val) int

// the number a code carries; a missing code counts as success
define codeNum(c) = ite(c == nil, 0, ite(typeis(c, Code), unbox(c, Code).code, codeOf(c)))
define isCodes(e) = typeis(root(e), Codes)
// the number of the code an error stands for
define causeNum(e) = ite(e == nil, 0, ite(isCodes(e), codeNum(root(e)), 0 - 1))

iface lib/errcode.Codes.Code(c) (n)
  ensures def: n == codeNum(c)

func Add(e, msg, args) (r)
  ensures code [P25]: r.code == e && r.msg == msg

func New(e, msg) (r)
  maypanic
  ensures positive [P25]: e > 0
  ensures code [P25]: r.code == e && r.msg == msg
  panics onlyRejected [P25]: e <= 0

func Code.Error(e) (s)
  ensures text [P25]: s == e.msg
func Code.Code(e) (n)
  ensures number [P25]: n == e.code
func Code.Message(e) (s)
  ensures text [P25]: s == e.msg
func Code.Details(e) (s)
  ensures text [P25]: s == e.detail

func String(e) (r)
  ensures success [P25]: e == "" ==> r.code == 0
  ensures failure [P25]: e != "" ==> r.code == 0 - 1 && r.msg == e

func Cause(e) (r)
  ensures none [P25]: e == nil ==> typeis(r, Code) && unbox(r, Code).code == 0
  ensures wrapped [P25]: e != nil && isCodes(e) ==> r == root(e)
  ensures generic [P25]: e != nil && !isCodes(e) ==> typeis(r, Code) && unbox(r, Code).code == 0 - 1 && unbox(r, Code).msg == errmsg(e)
  ensures number [P25]: codeNum(r) == causeNum(e)
  ensures isCode [P25]: r != nil

func Equal(a, b) (r)
  ensures byCode [P25]: r <==> codeNum(a) == codeNum(b)

func EqualError(code, err) (r)
  requires given: code != nil
  ensures byCode [P25]: (r <==> codeNum(code) == causeNum(err))

func Code.Equal(e, err) (r)
  ensures byCode [P25]: (r <==> e.code == causeNum(err))

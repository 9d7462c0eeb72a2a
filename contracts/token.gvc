package lib/token
import jwt github.com/golang-jwt/jwt

// ---- P24: tokens ----
// mkTok(id,key): the token carrying id signed under key; tokValid(t,key): t is a
// well-formed token validly signed under key; tokId(t): the identity it carries;
// utf8ok(id): id is valid text (JSON round-trips it).
ufun mkTok(string, string) string
ufun tokValid(string, string) bool
ufun tokId(string) string
ufun utf8ok(string) bool
axiom roundTrip: all(id, string, all(key, string, utf8ok(id) ==> tokValid(mkTok(id, key), key) && tokId(mkTok(id, key)) == id, trig(mkTok(id, key))))

ghost tokClaims [int]val
ghost tokMethod [int]val

global methods [P24]: len(kTokenSignKey) > 0
global extern methods: jwt.SigningMethodHS256 != nil && jwt.SigningMethodHS384 != nil && jwt.SigningMethodHS512 != nil

extern jwt.NewWithClaims(method, claims) (t)
  modifies tokClaims, tokMethod
  ensures built: t != nil && fresh(t) && tokClaims == store(old(tokClaims), ref(t), claims) && tokMethod == store(old(tokMethod), ref(t), method)

define hmac(m) = m == box(jwt.SigningMethodHS256) || m == box(jwt.SigningMethodHS384) || m == box(jwt.SigningMethodHS512)

extern jwt.Token.SignedString(t, key) (s, err)
  ensures succeeds: hmac(tokMethod[ref(t)]) && typeis(key, []byte) && typeis(tokClaims[ref(t)], Claims) ==> err == nil
  ensures signed: err == nil && typeis(tokClaims[ref(t)], Claims) && typeis(key, []byte) ==> s == mkTok(unbox(tokClaims[ref(t)], Claims).EntityID, str(unbox(key, []byte)))

// the library asks for the key, decodes the claims, checks the signature and asks the claims to validate themselves
extern jwt.ParseWithClaims(tok, claims, kf) (t, err)
  requires claims: typeis(claims, *Claims)
  modifies fields(unbox(claims, *Claims))
  calls kf(_) (key, kerr)
  calls after claims.Valid() (verr)
  ensures decoded: unbox(claims, *Claims).EntityID == tokId(tok)
  ensures sound: err == nil ==> kerr == nil && verr == nil && typeis(key, []byte) && tokValid(tok, str(unbox(key, []byte)))
  ensures complete: kerr == nil && verr == nil && typeis(key, []byte) && tokValid(tok, str(unbox(key, []byte))) ==> err == nil

func Claims.Valid(c) (err)
  ensures nonEmpty [P24]: err == nil <==> c.EntityID != ""

func Create(entityID) (s, err)
  modifies tokClaims, tokMethod
  ensures created [P24]: entityID != "" ==> err == nil && s == mkTok(entityID, kTokenSignKey)
  ensures rejectsEmpty [P24]: entityID == "" ==> err != nil && s == ""
  ensures parsesBack [P24]: err == nil && utf8ok(entityID) ==> tokValid(s, kTokenSignKey) && tokId(s) == entityID

func Parse(tok) (id, err)
  ensures sound [P24]: err == nil ==> tokValid(tok, kTokenSignKey) && id == tokId(tok) && id != ""
  ensures complete [P24]: tokValid(tok, kTokenSignKey) && tokId(tok) != "" ==> err == nil
  ensures noIdentityOnError [P24]: err != nil ==> id == ""

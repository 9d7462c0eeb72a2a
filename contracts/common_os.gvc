package utils/file
import os os
import ioutil io/ioutil
import strings strings
import log log

// ---- the file system: content by path; open files by handle ----
ghost fs [string]string
ghost fpath [int]string
ghost fpos [int]int

extern ioutil.WriteFile(name, data, perm) (err)
  modifies fs
  ensures ok: err == nil ==> fs == store(old(fs), name, str(data))
extern os.WriteFile(name, data, perm) (err)
  modifies fs
  ensures ok: err == nil ==> fs == store(old(fs), name, str(data))

// flag 512 is O_TRUNC, 1024 is O_APPEND
extern os.OpenFile(name, flag, perm) (f, err)
  modifies fs, fpath, fpos
  ensures opened: err == nil ==> f != nil && fresh(f) && fpath == store(old(fpath), ref(f), name) && fpos == store(old(fpos), ref(f), 0)
  ensures truncated: err == nil ==> fs == ite(flag / 512 % 2 == 1, store(old(fs), name, ""), old(fs))
  ensures failed: err != nil ==> fs == old(fs)
extern os.Create(name) (f, err)
  modifies fs, fpath, fpos
  ensures opened: err == nil ==> f != nil && fresh(f) && fpath == store(old(fpath), ref(f), name) && fpos == store(old(fpos), ref(f), 0)
  ensures truncated: err == nil ==> fs == store(old(fs), name, "")

ufun overwrite(string, int, string) string
extern os.File.Write(f, b) (n, err)
  modifies fs, fpos[ref(f)]
  ensures wrote: err == nil ==> n == len(b) && fs == store(old(fs), fpath[ref(f)], ite(old(fpos[ref(f)]) == 0 && old(fs[fpath[ref(f)]]) == "", str(b), overwrite(old(fs[fpath[ref(f)]]), old(fpos[ref(f)]), str(b)))) && fpos[ref(f)] == old(fpos[ref(f)]) + len(b)
extern os.File.Close(f) (err)
extern os.File.Sync(f) (err)

extern log.Fatal(v)
  noreturn
extern log.Fatalf(f, v)
  noreturn
extern log.Fatalln(v)
  noreturn

extern strings.LastIndex(s, sub) (r)
  ensures none: r < 0 ==> r == 0 - 1 && all(i, int, 0 <= i && i + len(sub) <= len(s) ==> s[i:i+len(sub)] != sub)
  ensures found: r >= 0 ==> r + len(sub) <= len(s) && s[r:r+len(sub)] == sub && all(i, int, r < i && i + len(sub) <= len(s) ==> s[i:i+len(sub)] != sub)

package utils/file

// ---- P33: file helpers ----
define dotAt(s, i) = 0 <= i && i < len(s) && s[i:i+1] == "."
define lastDot(s, i) = dotAt(s, i) && all(j, int, i < j && j < len(s) ==> !dotAt(s, j))
define noDot(s) = all(j, int, 0 <= j && j < len(s) ==> !dotAt(s, j))

func SaveFile(dat, fileName) (err)
  modifies fs
  ensures exactBytes [P33]: err == nil ==> fs == store(old(fs), fileName, str(dat))

func WriteJSON(path, jsonByte)
  modifies fs, fpath, fpos
  ensures exactBytes [P33]: fs == store(old(fs), path, str(jsonByte))

func GetFileExt(fileName) (r)
  ensures empty [P33]: noDot(fileName) ==> r == ""
  ensures fromLastDot [P33]: all(i, int, lastDot(fileName, i) ==> r == fileName[i:])

func GetFileRealName(fileName) (r)
  ensures empty [P33]: noDot(fileName) ==> r == ""
  ensures beforeLastDot [P33]: all(i, int, lastDot(fileName, i) ==> r == fileName[:i])

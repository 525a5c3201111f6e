#ifndef VP_TMPFILE_HPP
#define VP_TMPFILE_HPP
#include <string>
#ifdef VP_NATIVE
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
// a scratch file in a private directory (the check runs in its own scratch directory)
struct vp_tmp {
  std::string dir;
  vp_tmp(){ char b[] = "/tmp/vpfits.XXXXXX"; if(!mkdtemp(b)) abort(); dir = b; }
  std::string path() const { return dir + "/f.fits"; }
  ~vp_tmp(){ unlink(path().c_str()); rmdir(dir.c_str()); }
  vp_tmp(const vp_tmp&) = delete;
};
#else
struct vp_tmp { std::string path() const { return "f.fits"; } };
#endif
#endif

const MNTPATHLEN = 1024;
const MNTNAMLEN = 255;
const FHSIZE3 = 64;
typedef opaque fhandle3<FHSIZE3>;
typedef string dirpath<MNTPATHLEN>;
typedef string name_t<MNTNAMLEN>;
enum mountstat3 { MNT3_OK = 0, MNT3ERR_PERM = 1, MNT3ERR_NOENT = 2, MNT3ERR_SERVERFAULT = 10006 };
struct mountbody { name_t ml_hostname; dirpath ml_directory; mountbody *ml_next; };
struct groupnode { name_t gr_name; groupnode *gr_next; };
struct exportnode { dirpath ex_dir; groupnode *ex_groups; exportnode *ex_next; };
struct mountres3_ok { fhandle3 fhandle; };
union mountres3 switch (mountstat3 fhs_status) {
case MNT3_OK: mountres3_ok mountinfo;
default: void;
};

const NFS4_FHSIZE = 128;
const NFS4_VERIFIER_SIZE = 8;
const NFS4_OPAQUE_LIMIT = 1024;
const NFS4_OTHER_SIZE = 12;
const FH4_PERSISTENT = 0x00000000;
const FH4_VOLATILE_ANY = 0x00000002;
enum nfs_ftype4 { NF4REG = 1, NF4DIR = 2, NF4BLK = 3, NF4CHR = 4, NF4LNK = 5, NF4SOCK = 6, NF4FIFO = 7 };
enum nfsstat4 { NFS4_OK = 0, NFS4ERR_PERM = 1, NFS4ERR_NOENT = 2, NFS4ERR_IO = 5, NFS4ERR_BADHANDLE = 10001, NFS4ERR_DELAY = 10008 };
typedef opaque attrlist4<>;
typedef uint32_t bitmapword;
struct bitmap_holder { unsigned int word0; unsigned int word1; };
typedef uint64_t changeid4;
typedef uint64_t clientid4;
typedef uint32_t count4;
typedef uint64_t length4;
typedef uint64_t offset4;
typedef opaque nfs_fh4<NFS4_FHSIZE>;
typedef opaque verifier4[NFS4_VERIFIER_SIZE];
typedef string utf8str_cs<>;
typedef utf8str_cs component4;
typedef component4 pathname4<>;
typedef opaque sec_oid4<>;
struct nfstime4 { int64_t seconds; uint32_t nseconds; };
enum time_how4 { SET_TO_SERVER_TIME4 = 0, SET_TO_CLIENT_TIME4 = 1 };
union settime4 switch (time_how4 set_it) {
case SET_TO_CLIENT_TIME4: nfstime4 time;
default: void;
};
struct fsid4 { uint64_t major; uint64_t minor; };
struct fs_location4 { component4 server<>; pathname4 rootpath; };
struct fs_locations4 { pathname4 fs_root; fs_location4 locations<>; };
struct fattr4 { bitmap_holder attrmask; attrlist4 attr_vals; };
struct stateid4 { uint32_t seqid; opaque other[NFS4_OTHER_SIZE]; };
struct nfs_client_id4 { verifier4 verifier; opaque id<NFS4_OPAQUE_LIMIT>; };
struct clientaddr4 { string r_netid<>; string r_addr<>; };
struct READ4args { stateid4 stateid; offset4 offset; count4 count; };
struct READ4resok { bool eof; opaque data_<>; };
union READ4res switch (nfsstat4 status) {
case NFS4_OK: READ4resok resok4;
default: void;
};
struct entry4 { uint64_t cookie; component4 name; fattr4 attrs; entry4 *nextentry; };
struct dirlist4 { entry4 *entries; bool eof; };
struct READDIR4resok { verifier4 cookieverf; dirlist4 reply; };
union READDIR4res switch (nfsstat4 status) {
case NFS4_OK: READDIR4resok resok4;
default: void;
};
enum nfs_opnum4 { OP_ACCESS = 3, OP_GETATTR = 9, OP_PUTFH = 22, OP_READ = 25, OP_READDIR = 26, OP_RENEW = 30, OP_ILLEGAL = 10044 };
struct PUTFH4args { nfs_fh4 object; };
union nfs_argop4 switch (nfs_opnum4 argop) {
case OP_ACCESS: uint32_t access;
case OP_GETATTR: bitmap_holder attr_request;
case OP_PUTFH: PUTFH4args opputfh;
case OP_READ: READ4args opread;
case OP_RENEW: clientid4 oprenew;
case OP_READDIR:
case OP_ILLEGAL: void;
};
union nfs_resop4 switch (nfs_opnum4 resop) {
case OP_READ: READ4res opread;
case OP_READDIR: READDIR4res opreaddir;
case OP_ACCESS:
case OP_GETATTR:
case OP_PUTFH:
case OP_RENEW:
case OP_ILLEGAL: nfsstat4 status;
};
struct COMPOUND4args { utf8str_cs tag; uint32_t minorversion; nfs_argop4 argarray<>; };
struct COMPOUND4res { nfsstat4 status; utf8str_cs tag; nfs_resop4 resarray<>; };

/* After RFC 5531. */
const RPC_VERS = 2;
const MAXAUTH = 400;
enum auth_flavor { AUTH_NONE = 0, AUTH_SYS = 1, AUTH_SHORT = 2, AUTH_DH = 3, RPCSEC_GSS = 6 };
typedef opaque opaque_auth_body<MAXAUTH>;
struct opaque_auth { auth_flavor flavor; opaque body<400>; };
enum msg_type { CALL = 0, REPLY = 1 };
enum reply_stat { MSG_ACCEPTED = 0, MSG_DENIED = 1 };
enum accept_stat { SUCCESS = 0, PROG_UNAVAIL = 1, PROG_MISMATCH = 2, PROC_UNAVAIL = 3, GARBAGE_ARGS = 4, SYSTEM_ERR = 5 };
enum reject_stat { RPC_MISMATCH = 0, AUTH_ERROR = 1 };
enum auth_stat { AUTH_OK = 0, AUTH_BADCRED = 1, AUTH_REJECTEDCRED = 2, AUTH_BADVERF = 3, AUTH_TOOWEAK = 5, AUTH_FAILED = 7 };
struct rpc_msg { unsigned int xid; rpc_body rbody; };
union rpc_body switch (msg_type mtype) {
case CALL: call_body cbody;
case REPLY: reply_body rbody;
};
struct call_body { unsigned int rpcvers; unsigned int prog; unsigned int vers; unsigned int proc_; opaque_auth cred; opaque_auth verf; };
union reply_body switch (reply_stat stat) {
case MSG_ACCEPTED: accepted_reply areply;
case MSG_DENIED: rejected_reply rreply;
};
struct accepted_reply { opaque_auth verf; reply_data data_; };
struct mismatch_info { unsigned int low; unsigned int high; };
union reply_data switch (accept_stat stat) {
case SUCCESS: results res;
case PROG_MISMATCH: mismatch_info info;
default: void;
};
struct results { opaque r[8]; };
union rejected_reply switch (reject_stat stat) {
case RPC_MISMATCH: mismatch_info m;
case AUTH_ERROR: auth_stat why;
};

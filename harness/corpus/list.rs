corpus! {
    "repo_spec", "rpc", "nfs", "mount", "scalars", "payloads", "bounds", "optional", "unions",
    "defaults", "chains", "names", "forward", "mixed", "bare", "comments", "many", "twins", "huge", "kf_bare", "kf_chain",
}

// The real shell, built with the harness's flags: the same entry point as /repo/dsh/src/main.rs.
fn main() -> std::process::ExitCode {
    doge_shell::lib_main()
}

mod lang;
mod scen;
mod work;
mod world;
fn main() {
    let cli = simkit::runner::cli();
    let code = scen::run(&cli);
    cli.finish(code)
}

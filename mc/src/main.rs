mod cli;
mod deep;
mod edits;
mod fault;
mod grammar;
mod imp;
mod judge;
mod model_parse;
mod model_resolve;
mod model_scan;
mod node;
mod props;
mod pure;
mod scaled;
mod sched;
mod space;
mod sup;
mod wasm;
mod work;

fn main() {
    sup::main()
}

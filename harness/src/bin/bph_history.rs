fn main() {
    bpharness::main_of(bpharness::s_history::run)
}

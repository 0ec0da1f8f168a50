fn main() {
    bpharness::main_of(bpharness::s_crash::run)
}

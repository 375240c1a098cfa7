fn main() {
    hx::native::main(hx::ENTRIES);
}

fn main() {
    cluster::main()
}

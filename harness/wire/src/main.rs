fn main() { symrt::main(h_wire::TABLE) }

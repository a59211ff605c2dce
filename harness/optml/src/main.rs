fn main() { symrt::main(h_optml::TABLE) }

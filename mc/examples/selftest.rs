fn main() {
    println!("{:?}", mc::bf::selftest());
}

"""C17: glare metrics."""
import d15

d15.main(17)

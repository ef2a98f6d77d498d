package main

func init() {
	divide("C17")
	register("C17", "abstract interpretation of parsing, resolving, unwrapping, checking and validating on documents in which any one node is replaced by every kind of odd node: no way through the code panics", checkC17)
}

func checkC17(c *Ctx) {
	c.broken([]string{"OptWithUnwrap", "OptWithValidate"}, nil, func(at string, w *docWorld, o *Outcome) bool {
		c.ok("odd document", at)
		return true
	}, nil)
	c.floor("odd document", 1000)
}

"""Static analyser for FVHOE: abstract interpretation over an algebraic value-numbering domain."""

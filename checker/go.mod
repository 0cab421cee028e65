module checker

go 1.21

require (
	github.com/kazu/skiplistmap v0.0.0
	github.com/kazu/elist_head v0.0.0
	github.com/kazu/loncha v0.0.0
	github.com/lk4d4/trylock v0.0.0
	github.com/cespare/xxhash v0.0.0
	github.com/seehuhn/mt19937 v0.0.0
	verif v0.0.0
)
replace github.com/kazu/skiplistmap => ../repo
replace github.com/kazu/elist_head => ../elist
replace github.com/kazu/loncha => ../loncha
replace github.com/lk4d4/trylock => ../trylock
replace github.com/cespare/xxhash => ../xxhash
replace github.com/seehuhn/mt19937 => ../mt19937
replace verif => ../shim

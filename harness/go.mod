module verifh

go 1.23

require (
	geGoMetry v0.0.0
	nurbs v0.0.0
	verifrt v0.0.0
	github.com/qmuntal/gltf v0.18.2
	github.com/ungerik/go3d v0.0.0-20200217190927-d82aececefe9
)

replace geGoMetry => ./.src
replace nurbs => ./.src/nurbs
replace verifrt => ../rt

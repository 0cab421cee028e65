module mkws

go 1.21

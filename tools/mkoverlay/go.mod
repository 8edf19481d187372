module mkoverlay

go 1.23

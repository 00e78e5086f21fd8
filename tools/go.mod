module vtools

go 1.27

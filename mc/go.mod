module verif/mc

go 1.21

require gopkg.in/yaml.v2 v2.4.0

SPECIFICATION SSpec
VIEW SView
CONSTANT Families <- SFamilies
CONSTANT Styles <- AllStyles
CONSTANT WithIds = FALSE
INVARIANT Same
INVARIANT SEmitted
CHECK_DEADLOCK FALSE

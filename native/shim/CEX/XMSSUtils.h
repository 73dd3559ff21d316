#include VERIF_REPO_CEX(XmssUtils.h)

#include "api.hpp"
int main(int argc,char**argv){ api::quietXml(); api::Opts o; if(argc>3)o.options=atoi(argv[3]); std::string s=api::readFile(argv[2]); auto d=api::parse(s,argv[1],o); printf("%d %s\n",d.status,d.srcml.c_str()); api::Doc x(d.srcml); if(!x.ok()) printf("ILL-FORMED %s\n",x.error.c_str()); else if (argc>4) printf("%s\n",api::canon(x.root()).c_str()); }

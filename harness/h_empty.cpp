// modules: basiclog basicsys basicmath basicimg
int main(){return 0;}

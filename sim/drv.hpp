#ifndef PSISIM_DRV_HPP
#define PSISIM_DRV_HPP
#include <map>
#include <string>
int drv_server_main(int argc, char **argv);
int drv_pipe_main(int argc, char **argv);
namespace sim {
void image_point();
extern bool image_on_thread;        // the next pthread_create is the image point
void driver_begin();                // called in the child, before its first thread starts
std::map<std::string, std::string> args_of(const std::string &line);
}
#endif
